package main

// C05, C06: page allocator and linked slots.

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
	"pgregory.net/rapid"
)

const pageSize = 4096

type pageOp struct {
	Kind string `json:"k"`
	N    int    `json:"n,omitempty"`   // repetitions, or selector
	Len  int    `json:"len,omitempty"` // -1: nil buffer
	Seed uint64 `json:"seed,omitempty"`
	Pick int    `json:"pick,omitempty"`
	At   int    `json:"at,omitempty"`
}

type pageCase struct {
	Ops []pageOp `json:"ops"`
}

func genPageCase(t *rapid.T) pageCase {
	var c pageCase
	n := rapid.IntRange(1, 25).Draw(t, "n")
	for i := 0; i < n; i++ {
		if skip(t) {
			continue
		}
		op := pageOp{Seed: rapid.Uint64Range(1, 1<<20).Draw(t, "seed"), Pick: rapid.IntRange(0, 1<<16).Draw(t, "pick")}
		switch weighted(t, "kind", 6, 3, 5, 3, 1, 1, 1, 1, 1, 2, 1, 2, 1) {
		case 12:
			op.Kind = "leap"
			op.N = rapid.IntRange(0, len(leaps)-1).Draw(t, "far")
		case 11:
			op.Kind = "cross" // an access over the end of a page
			if op.Pick%3 == 0 {
				op.Kind = "page"
			}
			op.At = []int{0, pageSize - 1, rapid.IntRange(0, pageSize-1).Draw(t, "at")}[rapid.IntRange(0, 2).Draw(t, "ak")]
			op.Len = []int{1, 8, pageSize}[rapid.IntRange(0, 2).Draw(t, "lk")]
		case 0:
			op.Kind = "alloc"
			op.Len = []int{-1, 0, 1, pageSize - 1, pageSize, rapid.IntRange(0, pageSize).Draw(t, "len")}[rapid.IntRange(0, 5).Draw(t, "lk")]
		case 1:
			op.Kind = "write"
			op.At = rapid.IntRange(0, pageSize-1).Draw(t, "at")
			op.Len = rapid.IntRange(1, 64).Draw(t, "len")
		case 2:
			op.Kind = "free"
		case 3:
			op.Kind = "reopen"
		case 4:
			op.Kind = "allocs"
			op.N = drawSize(t, 700)
		case 5:
			op.Kind = "frees"
			op.N = drawSize(t, 700)
		case 6:
			op.Kind = "cycle" // free one, allocate one, repeatedly
			op.N = drawSize(t, 1100)
		case 7:
			op.Kind = "toolarge"
			op.Len = pageSize + 1 + rapid.IntRange(0, 5000).Draw(t, "extra")
		case 8:
			op.Kind = "misaligned"
			op.At = rapid.IntRange(1, pageSize-1).Draw(t, "at")
		case 9:
			op.Kind = "refree"
		case 10:
			op.Kind = "fillup" // allocate and free until the free list is full
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func fill(seed uint64, n int) []byte {
	if n < 0 {
		return nil
	}
	b := make([]byte, n)
	r := splitmix(seed)
	for i := range b {
		b[i] = byte(r.next()>>13) | 1
	}
	return b
}

// refused tells whether f reports an error or panics.
func refused(f func() error) (r bool) {
	defer func() {
		if recover() != nil {
			r = true
		}
	}()
	return f() != nil
}

func judgePages(c pageCase, ctx *Ctx) error {
	st := newMem(nil)
	defer st.release()
	pf, err := pagefile.NewPageFile(st)
	if err != nil {
		return fmt.Errorf("new page file: %v", err)
	}
	skipped := 0 // pages allocated, but not looked at
	if len(st.buf) != pageSize {
		return fmt.Errorf("a fresh page file has %d bytes", len(st.buf))
	}
	used := map[int64][]byte{} // 4096-byte contents
	var order []int64          // pages in use, in allocation order
	var free []int64           // oldest first
	freedTotal, wrapped, reopened, reused, full := 0, false, false, 0, false
	alloc := func(ln int, seed uint64) error {
		buf := fill(seed, ln)
		end := int64(len(st.buf))
		arg := buf
		off, err := pf.NewPage(arg)
		if err != nil {
			return fmt.Errorf("allocate: %v", err)
		}
		if off%pageSize != 0 || off <= 0 {
			return fmt.Errorf("allocated page at %d", off)
		}
		if _, in := used[off]; in {
			return fmt.Errorf("page %d allocated while in use", off)
		}
		if len(free) > 0 {
			if off != free[0] {
				return fmt.Errorf("allocated page %d, the oldest free page is %d of %d free", off, free[0], len(free))
			}
			if int64(len(st.buf)) != end {
				return fmt.Errorf("the file grew although pages were free")
			}
			free = free[1:]
			reused++
		} else if off != end {
			return fmt.Errorf("allocated page %d of a file of %d bytes with no free page", off, end)
		}
		content := make([]byte, pageSize)
		copy(content, buf)
		used[off] = content
		order = append(order, off)
		if off+pageSize > int64(len(st.buf)) || !bytes.Equal(st.buf[off:off+pageSize], content) {
			return fmt.Errorf("page %d is not initialised with the given %d bytes padded with zeros", off, len(buf))
		}
		return nil
	}
	refuse := func(what string, f func() error) error {
		before := st.snapshot()
		if err := f(); err == nil {
			return fmt.Errorf("%s was accepted", what)
		}
		if !st.same(before) {
			return fmt.Errorf("%s was refused but changed the file", what)
		}
		return nil
	}
	freeOne := func(pick int) error {
		if len(order) == 0 {
			return nil
		}
		i := pick % len(order)
		off := order[i]
		if len(free) == 512 {
			return refuse("freeing a 513th page", func() error { return pf.FreePage(off) })
		}
		if err := pf.FreePage(off); err != nil {
			return fmt.Errorf("free page %d: %v", off, err)
		}
		order = append(order[:i:i], order[i+1:]...)
		delete(used, off)
		free = append(free, off)
		freedTotal++
		return nil
	}
	verify := func() error {
		for off, w := range used {
			if off+pageSize > int64(len(st.buf)) || !bytes.Equal(st.buf[off:off+pageSize], w) {
				return fmt.Errorf("contents of page %d changed", off)
			}
		}
		if len(st.buf)%pageSize != 0 || len(st.buf) != pageSize*(1+skipped+len(used)+len(free)) {
			return fmt.Errorf("file of %d bytes, with %d pages in use and %d free", len(st.buf), len(used), len(free))
		}
		if n := int64(len(st.buf) / pageSize); pf.PageCount() != n || pf.LastPage() != n {
			return fmt.Errorf("the page file counts %d pages (last page %d), the file has %d", pf.PageCount(), pf.LastPage(), n)
		}
		// the free-list page lists exactly the free pages, oldest first
		for i := 0; i < 512; i++ {
			w := uint64(0)
			if i < len(free) {
				w = uint64(free[i])
			}
			if g := le64(st.buf[i*8:]); g != w {
				return fmt.Errorf("entry %d of the free list page is %d, want %d (%d free)", i, g, w, len(free))
			}
		}
		return nil
	}
	for i, op := range c.Ops {
		r := splitmix(op.Seed)
		err := func() error {
			switch op.Kind {
			case "alloc":
				return alloc(op.Len, op.Seed)
			case "allocs":
				for j := 0; j < op.N; j++ {
					if err := alloc(int(r.next()%100), r.next()); err != nil {
						return err
					}
				}
			case "write":
				if len(order) == 0 {
					return nil
				}
				off := order[op.Pick%len(order)]
				n := min(op.Len, pageSize-op.At)
				b := fill(op.Seed, n)
				if _, err := pf.Seek(off+int64(op.At), io.SeekStart); err != nil {
					return fmt.Errorf("seek: %v", err)
				}
				if _, err := pf.Write(b); err != nil {
					return fmt.Errorf("write: %v", err)
				}
				copy(used[off][op.At:], b)
				if _, err := pf.Seek(off, io.SeekStart); err != nil {
					return err
				}
				back := make([]byte, pageSize)
				if _, err := io.ReadFull(pf, back); err != nil {
					return fmt.Errorf("read back: %v", err)
				}
				if !bytes.Equal(back, used[off]) {
					return fmt.Errorf("page %d reads back differently", off)
				}
			case "free":
				return freeOne(op.Pick)
			case "frees":
				for j := 0; j < op.N; j++ {
					if err := freeOne(int(r.next() % (1 << 30))); err != nil {
						return err
					}
				}
			case "cycle":
				for j := 0; j < op.N; j++ {
					if err := freeOne(int(r.next() % (1 << 30))); err != nil {
						return err
					}
					if r.next()%8 != 0 {
						if err := alloc(int(r.next()%64), r.next()); err != nil {
							return err
						}
					}
				}
			case "fillup":
				for len(free)+len(order) < 520 {
					if err := alloc(int(r.next()%64), r.next()); err != nil {
						return err
					}
				}
				for len(free) < 512 {
					if err := freeOne(int(r.next() % (1 << 30))); err != nil {
						return err
					}
				}
				full = true
				return freeOne(op.Pick)
			case "toolarge":
				return refuse("allocating more than a page", func() error { _, err := pf.NewPage(make([]byte, op.Len)); return err })
			case "misaligned":
				base := int64(pageSize)
				if len(order) > 0 {
					base = order[op.Pick%len(order)]
				}
				return refuse("freeing a misaligned offset", func() error { return pf.FreePage(base + int64(op.At)) })
			case "refree":
				if len(free) == 0 {
					return nil
				}
				off := free[op.Pick%len(free)]
				return refuse("freeing a free page", func() error { return pf.FreePage(off) })
			case "cross":
				if len(order) == 0 {
					return nil
				}
				off := order[op.Pick%len(order)]
				before := st.snapshot()
				for _, write := range []bool{true, false} {
					if _, err := pf.Seek(off+int64(op.At), io.SeekStart); err != nil {
						return fmt.Errorf("seek: %v", err)
					}
					if !refused(func() error {
						b := fill(op.Seed, pageSize-op.At+op.Len)
						var err error
						if write {
							_, err = pf.Write(b)
						} else {
							_, err = pf.Read(b)
						}
						return err
					}) {
						return fmt.Errorf("an access (write: %v) of %d bytes at byte %d of a page is accepted", write, pageSize-op.At+op.Len, op.At)
					}
				}
				if !st.same(before) {
					return fmt.Errorf("a refused access changed the file")
				}
			case "leap":
				// as if a run of pages had been allocated; a few of them are used and freed
				if at := int64(len(st.buf)); st.leap(leaps[op.N]) {
					for _, off := range []int64{at, at + leaps[op.N]/pageSize/2*pageSize, at + leaps[op.N] - pageSize} {
						used[off] = make([]byte, pageSize)
						order = append(order, off)
					}
					skipped = int(leaps[op.N]/pageSize) - 3
					// the page file counts pages as it allocates them
					if pf, err = pagefile.NewPageFile(st); err != nil {
						return fmt.Errorf("open a file of %d bytes: %v", len(st.buf), err)
					}
					ctx.Label("leap")
				}
			case "page":
				if off, err := pf.Page(op.Pick); err != nil || off != int64(op.Pick+1)*pageSize {
					return fmt.Errorf("page %d starts at %d, %v", op.Pick, off, err)
				}
				if _, err := pf.Page(-1 - op.Pick); err == nil {
					return fmt.Errorf("page %d has a position", -1-op.Pick)
				}
			case "reopen":
				before := st.snapshot()
				p2, err := pagefile.NewPageFile(st)
				if err != nil {
					return fmt.Errorf("reopen: %v", err)
				}
				if !st.same(before) {
					return fmt.Errorf("opening changed the file")
				}
				pf = p2
				reopened = true
			}
			return nil
		}()
		if err == nil {
			err = verify()
		}
		if err != nil {
			return fmt.Errorf("op %d (%s): %w", i, op.Kind, err)
		}
		if freedTotal > 512 {
			wrapped = true
		}
	}
	// everything still comes back, oldest first, after a last reopen
	p2, err := pagefile.NewPageFile(st)
	if err != nil {
		return fmt.Errorf("final reopen: %v", err)
	}
	pf = p2
	for j := 0; j < 3 && len(free) > 0; j++ {
		if err := alloc(5, uint64(j)+9); err != nil {
			return fmt.Errorf("after the final reopen: %w", err)
		}
	}
	if err := verify(); err != nil {
		return fmt.Errorf("after the final reopen: %w", err)
	}
	ctx.Labelf(wrapped, "more-than-512-frees")
	ctx.Labelf(reopened, "reopened")
	ctx.Labelf(reused > 0, "reused")
	ctx.Labelf(full, "free-list-full")
	ctx.NT(reused > 0 && len(c.Ops) > 2)
	return nil
}

type sizeCase struct {
	Pages int  `json:"pages"`
	Extra int  `json:"extra"`
	Seed  int  `json:"seed"`
	Free  bool `json:"free"`
}

func judgeSize(c sizeCase, ctx *Ctx) error {
	st := newMem(nil)
	pf, err := pagefile.NewPageFile(st)
	if err != nil {
		return err
	}
	for i := 1; i < c.Pages; i++ {
		off, err := pf.NewPage([]byte{1, 2, 3})
		if err != nil {
			return err
		}
		if c.Free && i%3 == 0 {
			if err := pf.FreePage(off); err != nil {
				return err
			}
		}
	}
	b := st.snapshot()
	if c.Pages == 0 {
		b = nil
	}
	b = append(b, fill(uint64(c.Seed), c.Extra)...)
	if c.Pages == 0 {
		for i := range b { // a free list page cut short
			b[i] = 0
		}
	}
	s2 := newMem(b)
	_, err = pagefile.NewPageFile(s2)
	bad := len(b)%pageSize != 0
	if bad && err == nil {
		return fmt.Errorf("a file of %d bytes was accepted", len(b))
	}
	if !bad && err != nil {
		return fmt.Errorf("a file of %d bytes was refused: %v", len(b), err)
	}
	if !bytes.Equal(s2.buf, b) && len(b) > 0 {
		return fmt.Errorf("opening changed the file")
	}
	ctx.NT(bad)
	ctx.Labelf(bad, "partial-page")
	return nil
}

// ---- C06

type slotOp struct {
	Kind string `json:"k"`
	Pick int    `json:"pick,omitempty"`
	N    int    `json:"n,omitempty"`
	Meta []byte `json:"meta,omitempty"`
	Len  int    `json:"len,omitempty"`
	Root ptr    `json:"root"`
}

type slotCase struct {
	Ops []slotOp `json:"ops"`
}

func genSlotCase(t *rapid.T) slotCase {
	var c slotCase
	n := rapid.IntRange(1, 40).Draw(t, "n")
	for i := 0; i < n; i++ {
		if skip(t) {
			continue
		}
		op := slotOp{Pick: rapid.IntRange(0, 1<<16).Draw(t, "pick")}
		switch weighted(t, "kind", 8, 4, 10, 10, 4, 4, 2, 2, 1) {
		case 8:
			op.Kind = "leap"
			op.N = rapid.IntRange(0, len(leaps)-1).Draw(t, "far")
		case 0:
			op.Kind = "add"
		case 1:
			op.Kind = "adds"
			op.N = rapid.IntRange(1, 20).Draw(t, "n")
		case 2:
			op.Kind = "root"
			op.Root = ptr{genOffset().Draw(t, "o"), genU32().Draw(t, "l")}
		case 3:
			op.Kind = "meta"
			switch rapid.IntRange(0, 3).Draw(t, "mk") {
			case 0:
				op.Len = rapid.IntRange(240, 252).Draw(t, "len")
			case 1:
				op.Len = 0
			default:
				op.Len = rapid.IntRange(1, 252).Draw(t, "len")
			}
			op.Meta = fill(uint64(op.Pick)+1, op.Len)
		case 4:
			op.Kind = "reopen"
		case 5:
			op.Kind = "badadd"
		case 6:
			op.Kind = "page" // an unrelated page in between
		case 7:
			op.Kind = "bigmeta"
			op.Len = 256 + rapid.IntRange(0, 300).Draw(t, "len")
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type slotModel struct {
	root ptr
	meta []byte
}

func judgeSlots(c slotCase, ctx *Ctx) error {
	st := newMem(nil)
	defer st.release()
	var pf *pagefile.PageFile
	var head *linkedpage.LinkedPage
	open := func() (err error) {
		if pf, err = pagefile.NewPageFile(st); err != nil {
			return err
		}
		head, err = linkedpage.NewMultiBPTree(pf, 0)
		return err
	}
	if err := open(); err != nil {
		return fmt.Errorf("open: %v", err)
	}
	var model []slotModel
	handles := []*linkedpage.LinkedPage{head} // handles[0] is the head, handles[i+1] slot i
	others := map[int64]uint64{}
	maxLen, reopened, badadds := 0, false, 0
	verify := func() error {
		got, err := head.Collect()
		if err != nil {
			return fmt.Errorf("collect: %v", err)
		}
		if len(got) != len(model) {
			return fmt.Errorf("list has %d slots, %d were appended", len(got), len(model))
		}
		for i, m := range model {
			for which, h := range []*linkedpage.LinkedPage{got[i], handles[i+1]} {
				r, err := h.Root()
				if err != nil {
					return fmt.Errorf("slot %d: root: %v", i, err)
				}
				if r != m.root.mp() {
					return fmt.Errorf("slot %d (handle %d): root is %v, last set to %v", i, which, r, m.root)
				}
				md, err := h.Metadata()
				if err != nil {
					return fmt.Errorf("slot %d: metadata: %v", i, err)
				}
				if !bytes.Equal(md, m.meta) {
					return fmt.Errorf("slot %d (handle %d): metadata is %x, last set to %x", i, which, md, m.meta)
				}
			}
		}
		for off, seed := range others {
			if !bytes.Equal(st.buf[off:off+pageSize], fill(seed, pageSize)) {
				return fmt.Errorf("unrelated page %d was overwritten", off)
			}
		}
		// stepping from each slot
		h := head
		for i := 0; ; i++ {
			n, err := h.Next()
			if errors.Is(err, io.EOF) {
				if i != len(model) {
					return fmt.Errorf("walk ended after %d of %d slots", i, len(model))
				}
				break
			}
			if err != nil {
				return fmt.Errorf("next: %v", err)
			}
			if i >= len(model) {
				return fmt.Errorf("walk goes on after %d slots", len(model))
			}
			h = n
		}
		return nil
	}
	add := func() error {
		n, err := handles[len(handles)-1].AddNext()
		if err != nil {
			return fmt.Errorf("append slot %d: %v", len(model), err)
		}
		handles = append(handles, n)
		model = append(model, slotModel{})
		return nil
	}
	for i, op := range c.Ops {
		err := func() error {
			switch op.Kind {
			case "add":
				return add()
			case "adds":
				for j := 0; j < op.N; j++ {
					if err := add(); err != nil {
						return err
					}
				}
			case "root", "meta", "bigmeta":
				if len(model) == 0 {
					return nil
				}
				k := op.Pick % len(model)
				h := handles[k+1]
				switch op.Kind {
				case "root":
					if err := h.SetRoot(op.Root.mp()); err != nil {
						return fmt.Errorf("set root: %v", err)
					}
					model[k].root = op.Root
				case "meta":
					// the caller's buffer stays the caller's
					b := append([]byte{}, op.Meta...)
					if err := h.SetMetadata(b); err != nil {
						return fmt.Errorf("set metadata of %d bytes: %v", len(b), err)
					}
					if !bytes.Equal(b, op.Meta) {
						return fmt.Errorf("set metadata changed the caller's buffer")
					}
					model[k].meta = op.Meta
					maxLen = max(maxLen, len(b))
				case "bigmeta":
					before := st.snapshot()
					if err := h.SetMetadata(make([]byte, op.Len)); err == nil {
						return fmt.Errorf("metadata of %d bytes was accepted", op.Len)
					}
					if !st.same(before) {
						return fmt.Errorf("refused metadata changed the file")
					}
				}
			case "badadd":
				if len(model) == 0 {
					return nil
				}
				k := op.Pick % len(model) // handles[k] is never the last
				before := st.snapshot()
				if _, err := handles[k].AddNext(); err == nil {
					return fmt.Errorf("appending after slot %d of %d was accepted", k-1, len(model))
				}
				if !st.same(before) {
					return fmt.Errorf("refused append changed the file")
				}
				badadds++
			case "page":
				seed := uint64(op.Pick) + 77
				off, err := pf.NewPage(fill(seed, pageSize))
				if err != nil {
					return fmt.Errorf("new page: %v", err)
				}
				others[off] = seed
			case "leap", "reopen":
				if op.Kind == "leap" && st.leap(leaps[op.N]) {
					ctx.Label("leap")
				}
				before := st.snapshot()
				if err := open(); err != nil {
					return fmt.Errorf("reopen: %v", err)
				}
				if !st.same(before) {
					return fmt.Errorf("reopening changed the file")
				}
				got, err := head.Collect()
				if err != nil {
					return err
				}
				handles = append([]*linkedpage.LinkedPage{head}, got...)
				if len(got) != len(model) {
					return fmt.Errorf("%d slots after reopening, want %d", len(got), len(model))
				}
				reopened = true
			}
			return nil
		}()
		if err == nil {
			err = verify()
		}
		if err != nil {
			return fmt.Errorf("op %d (%s): %w", i, op.Kind, err)
		}
	}
	if _, err := head.Root(); err == nil {
		return fmt.Errorf("the list head has a root")
	}
	if err := head.SetRoot(pointer.MemoryPointer{Offset: 1}); err == nil {
		return fmt.Errorf("the list head accepts a root")
	}
	if err := head.SetMetadata([]byte{1}); err == nil {
		return fmt.Errorf("the list head accepts metadata")
	}
	if _, err := head.Metadata(); err == nil {
		return fmt.Errorf("the list head has metadata")
	}
	if err := verify(); err != nil {
		return err
	}
	ctx.Labelf(len(model) > 15, "two-pages")
	ctx.Labelf(len(model) > 30, "three-pages")
	ctx.Labelf(maxLen > 240, "full-metadata")
	ctx.Labelf(reopened, "reopened")
	ctx.Labelf(badadds > 0, "refused-append")
	ctx.NT(len(model) > 1 && maxLen > 0)
	return nil
}

func init() {
	register("C05", "allocation histories (single and bulk allocations and frees, in-page writes, reopen, refused frees and oversize allocations) against a model of pages in use and a FIFO of free pages, all pages and the free-list page compared after every operation; non-trivial = at least one page was reused",
		sub("model", 4000, 60000, genPageCase, judgePages),
		sub("size", 400, 4000, func(t *rapid.T) sizeCase {
			c := sizeCase{Pages: rapid.IntRange(0, 8).Draw(t, "pages"), Seed: rapid.IntRange(0, 100).Draw(t, "seed"), Free: rapid.Bool().Draw(t, "free")}
			c.Extra = []int{0, 1, pageSize - 1, rapid.IntRange(0, pageSize).Draw(t, "extra")}[rapid.IntRange(0, 3).Draw(t, "ek")]
			return c
		}, judgeSize))
	register("C06", "histories of slot appends (up to many pages), root and metadata writes of 0-252 bytes to drawn slots, unrelated page allocations, refused appends and reopens, compared with a list model through old and fresh handles after every step; non-trivial = several slots and some metadata",
		sub("model", 16000, 240000, genSlotCase, judgeSlots),
		finding("metadata-over-252", func(ctx *Ctx) error {
			return slotOverlap(255)
		}))
}

// slotOverlap shows the recorded finding: metadata of n bytes reaches into the next slot.
func slotOverlap(n int) error {
	st := newMem(nil)
	pf, err := pagefile.NewPageFile(st)
	if err != nil {
		return err
	}
	head, err := linkedpage.NewMultiBPTree(pf, 0)
	if err != nil {
		return err
	}
	a, err := head.AddNext()
	if err != nil {
		return err
	}
	b, err := a.AddNext()
	if err != nil {
		return err
	}
	want := pointer.MemoryPointer{Offset: 12345, Length: 1}
	if err := b.SetRoot(want); err != nil {
		return err
	}
	if err := a.SetMetadata(bytes.Repeat([]byte{7}, n)); err != nil {
		return nil // refused: nothing overwritten
	}
	got, err := b.Root()
	if err != nil {
		return err
	}
	if got != want {
		return fmt.Errorf("writing %d bytes of metadata to slot 0 changed the root of slot 1 from %v to %v", n, want, got)
	}
	return nil
}
