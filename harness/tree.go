package main

// C01, C02, C03: the B+ tree against a sorted-list model. Several trees live in one
// page file, so page sharing between indexes is exercised as well.

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
	"golang.org/x/sys/unix"
	"pgregory.net/rapid"
)

type ptr struct {
	O uint64 `json:"o"`
	L uint32 `json:"l"`
}

func (p ptr) mp() pointer.MemoryPointer { return pointer.MemoryPointer{Offset: p.O, Length: p.L} }

type entry struct {
	val  []byte
	dp   ptr
	leaf ptr
}

func cmpKey(av []byte, ap ptr, bv []byte, bp ptr) int {
	if c := bytes.Compare(av, bv); c != 0 {
		return c
	}
	switch {
	case ap.O < bp.O:
		return -1
	case ap.O > bp.O:
		return 1
	case ap.L < bp.L:
		return -1
	case ap.L > bp.L:
		return 1
	}
	return 0
}

// model is a sorted list of entries.
type model []entry

func (m model) lower(v []byte, p ptr) int {
	return sort.Search(len(m), func(i int) bool { return cmpKey(m[i].val, m[i].dp, v, p) >= 0 })
}
func (m model) has(v []byte, p ptr) bool {
	i := m.lower(v, p)
	return i < len(m) && cmpKey(m[i].val, m[i].dp, v, p) == 0
}
func (m *model) insert(e entry) {
	i := m.lower(e.val, e.dp)
	*m = append(*m, entry{})
	copy((*m)[i+1:], (*m)[i:])
	(*m)[i] = e
}

// revParser is the data parser of referenced trees: it is not the identity, so code that
// compares raw bytes instead of parsed ones is noticed.
type revParser struct{}

func (revParser) Parse(b []byte) []byte {
	out := make([]byte, len(b))
	for i := range b {
		out[len(b)-1-i] = b[i] ^ 0x20
	}
	return out
}

type treeSpec struct {
	Width int `json:"width"` // 0: values referenced from the data file; n: inline values of n-1 bytes
}

type treeOp struct {
	Kind string `json:"k"` // ins, dup, wrong, bulk, reopen, again, leap, probe, walk
	Tree int    `json:"t"`
	Val  []byte `json:"v,omitempty"`
	DP   ptr    `json:"dp"`
	Leaf ptr    `json:"leaf"`
	// bulk
	N       int    `json:"n,omitempty"`
	Pattern int    `json:"p,omitempty"`
	Scale   int    `json:"s,omitempty"`
	Seed    uint64 `json:"seed,omitempty"`
	Walk    []bool `json:"w,omitempty"` // true = Next
	Pick    int    `json:"pick,omitempty"`
	H       int    `json:"h,omitempty"` // which of the open handles of the tree
}

type treeCase struct {
	Trees []treeSpec `json:"trees"`
	Ops   []treeOp   `json:"ops"`
}

const (
	patAsc = iota
	patDesc
	patRand
	patSame
	patFew
	patZigzag
	numPat
)

func genVal(t *rapid.T, n int) []byte {
	switch weighted(t, "valkind", 4, 2, 1) {
	case 0:
		return rapid.SliceOfN(rapid.ByteRange('a', 'c'), n, n).Draw(t, "val")
	case 1:
		return be(uint64(rapid.IntRange(0, 40).Draw(t, "ctr")), n)
	default:
		return rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "val")
	}
}

func genTreeCase(maxBulk int, withBad bool) func(t *rapid.T) treeCase {
	return func(t *rapid.T) treeCase {
		var c treeCase
		nt := weighted(t, "ntrees", 5, 2, 1) + 1
		for i := 0; i < nt; i++ {
			var w int
			switch weighted(t, "wk", 3, 3, 4, 3, 2, 1) {
			case 0:
				w = 0
			case 1:
				w = 9
			case 2:
				w = rapid.IntRange(1, 12).Draw(t, "w")
			case 3:
				w = rapid.IntRange(60, 300).Draw(t, "w")
			case 4:
				w = rapid.IntRange(300, 2000).Draw(t, "w")
			case 5:
				w = 1
			}
			c.Trees = append(c.Trees, treeSpec{w})
		}
		nops := rapid.IntRange(1, 14).Draw(t, "nops")
		bulkLeft := maxBulk
		for i := 0; i < nops; i++ {
			if skip(t) {
				continue
			}
			op := treeOp{Tree: rapid.IntRange(0, nt-1).Draw(t, "tree")}
			w := c.Trees[op.Tree].Width
			vlen := w - 1
			bad := 0
			if withBad {
				bad = 3
			}
			// the first operation usually fills a tree
			var k int
			if i == 0 {
				k = weighted(t, "kind0", 6, 10, 0, 0, 0, 0, 0, 1, 1)
			} else {
				k = weighted(t, "kind", 12, 6, 4, 8, 4, 2*bad, 2*bad, 3, 2)
			}
			op.H = rapid.IntRange(0, 3).Draw(t, "handle")
			switch k {
			case 0:
				op.Kind = "ins"
			case 1:
				op.Kind = "bulk"
				op.N = min(max(1, bulkLeft), drawSize(t, maxBulk))
				bulkLeft -= op.N
				op.Pattern = rapid.IntRange(0, numPat-1).Draw(t, "pat")
				op.Scale = rapid.IntRange(0, 60).Draw(t, "scale")
				op.Seed = rapid.Uint64Range(0, 1<<16).Draw(t, "seed")
			case 2:
				op.Kind = "reopen"
			case 3:
				op.Kind = "probe"
				op.Pick = rapid.IntRange(0, 1<<20).Draw(t, "pick")
			case 4:
				op.Kind = "walk"
				op.Pick = rapid.IntRange(0, 1<<20).Draw(t, "pick")
				op.Walk = rapid.SliceOfN(rapid.Bool(), 1, 30).Draw(t, "walk")
			case 5:
				op.Kind = "dup"
				op.Pick = rapid.IntRange(0, 1<<20).Draw(t, "pick")
			case 7:
				op.Kind = "again"
			case 8:
				op.Kind = "leap"
				op.N = rapid.IntRange(0, len(leaps)-1).Draw(t, "far")
			case 6:
				op.Kind = "wrong"
				op.Pick = rapid.IntRange(0, 1<<20).Draw(t, "pick")
			}
			if op.Kind == "ins" || op.Kind == "probe" || op.Kind == "walk" || op.Kind == "wrong" {
				n := vlen
				if w == 0 || (op.Kind != "ins" && rapid.IntRange(0, 3).Draw(t, "anylen") == 0) {
					n = rapid.IntRange(0, 12).Draw(t, "len")
				}
				op.Val = genVal(t, n)
				op.DP = ptr{genOffset().Draw(t, "dpo"), genU32().Draw(t, "dpl")}
				op.Leaf = ptr{genOffset().Draw(t, "lo"), genU32().Draw(t, "ll")}
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}
}

// expand turns an ins/bulk operation into the keys to insert.
func (op *treeOp) expand(width int) []entry {
	if op.Kind == "ins" {
		return []entry{{op.Val, op.DP, op.Leaf}}
	}
	r := splitmix(op.Seed)
	n := width - 1
	if width == 0 {
		n = 4 + int(op.Seed%9)
	}
	var out []entry
	for i := 0; i < op.N; i++ {
		var c uint64
		switch op.Pattern {
		case patAsc:
			c = uint64(i) * 3
		case patDesc:
			c = uint64(op.N-i) * 3
		case patRand:
			c = r.next()
		case patSame:
			c = 7
		case patFew:
			c = uint64(r.intn(5)) * 2
		case patZigzag:
			if i%2 == 0 {
				c = uint64(i)
			} else {
				c = uint64(2*op.N - i)
			}
		}
		v := be(c, n)
		if n > 20 && op.Pattern == patRand { // vary the head as well, not only the tail
			v[0] = byte(c >> 8)
		}
		o := uint64(i)
		if op.Pattern == patDesc {
			o = uint64(op.N - i)
		} else if op.Pattern == patRand || op.Pattern == patFew {
			o = uint64(r.intn(4 * op.N))
		}
		if op.Scale > 0 && op.Scale < 50 {
			o <<= uint(op.Scale)
		}
		l := uint32(n)
		if op.Scale > 40 {
			l = uint32(r.next())
		}
		out = append(out, entry{v, ptr{o, l}, ptr{o ^ op.Seed, uint32(i)}})
	}
	return out
}

// forest is the system under test: trees in slots of one page file.
type forest struct {
	st    *memFile
	pf    *pagefile.PageFile
	specs []treeSpec
	data  []byte // data file of referenced trees
	trees []*bptree.BPTree
	more  [][]*bptree.BPTree // further handles of the same trees

	region []byte // address space of data with a leap
}

func (f *forest) open() error {
	pf, err := pagefile.NewPageFile(f.st)
	if err != nil {
		return fmt.Errorf("open page file: %w", err)
	}
	f.pf = pf
	f.more = nil
	f.trees, err = f.handles()
	if err != nil {
		return err
	}
	f.refresh()
	return nil
}

// handles opens every tree, through the page file that is open.
func (f *forest) handles() ([]*bptree.BPTree, error) {
	lp, err := linkedpage.NewMultiBPTree(f.pf, 0)
	if err != nil {
		return nil, fmt.Errorf("open linked page: %w", err)
	}
	slots, err := lp.Collect()
	if err != nil {
		return nil, fmt.Errorf("collect: %w", err)
	}
	if len(slots) == 0 {
		cur := lp
		for range f.specs {
			if cur, err = cur.AddNext(); err != nil {
				return nil, fmt.Errorf("add slot: %w", err)
			}
			slots = append(slots, cur)
		}
	}
	if len(slots) != len(f.specs) {
		return nil, fmt.Errorf("expected %d slots, found %d", len(f.specs), len(slots))
	}
	var trees []*bptree.BPTree
	for i, s := range f.specs {
		t := slots[i].BPTree(&bptree.BPTree{Width: uint16(s.Width)})
		trees = append(trees, t)
	}
	return trees, nil
}

func (f *forest) refresh() {
	for _, ts := range append([][]*bptree.BPTree{f.trees}, f.more...) {
		for i, t := range ts {
			if f.specs[i].Width == 0 {
				t.Data, t.DataParser = f.data, revParser{}
			}
		}
	}
}

// leap makes the index file, and the data file of referenced trees, n bytes larger.
func (f *forest) leap(n int64) bool {
	if !f.st.leap(n) {
		return false
	}
	if f.region = reserve(); f.region != nil {
		l := copy(f.region, f.data)
		f.data = f.region[:int64(l)+n]
	}
	return true
}

func (f *forest) release() {
	f.st.release()
	if f.region != nil {
		unix.Munmap(f.region)
		f.region, f.data = nil, nil
	}
}

// place appends the raw form of v to the data file and returns its pointer.
func (f *forest) place(v []byte) ptr {
	raw := revParser{}.Parse(v) // the parser is an involution
	o := len(f.data)
	f.data = append(f.data, raw...)
	f.data = append(f.data, '\n')
	return ptr{uint64(o), uint32(len(raw))}
}

func rv(v []byte, p ptr) pointer.ReferencedValue {
	return pointer.ReferencedValue{DataPointer: p.mp(), Value: v}
}

func eqEntry(k pointer.ReferencedValue, p pointer.MemoryPointer, e entry) bool {
	return bytes.Equal(k.Value, e.val) && k.DataPointer == e.dp.mp() && p == e.leaf.mp()
}

func fmtEntry(k pointer.ReferencedValue, p pointer.MemoryPointer) string {
	v := k.Value
	if len(v) > 24 {
		v = append(append([]byte{}, v[:10]...), v[len(v)-10:]...)
	}
	return fmt.Sprintf("{value %x dp %v ptr %v}", v, k.DataPointer, p)
}

// checkFind compares Find and Contains for one probe with the model.
func checkFind(t *bptree.BPTree, m model, v []byte, p ptr) error {
	k, mp, err := t.Find(rv(v, p))
	if err != nil {
		return fmt.Errorf("find %x@%v: unexpected error %v", v, p, err)
	}
	i := m.lower(v, p)
	if i == len(m) {
		if len(k.Value) != 0 || k.DataPointer != (pointer.MemoryPointer{}) || mp != (pointer.MemoryPointer{}) {
			return fmt.Errorf("find %x@%v: got %s, model has no entry at or after the probe", v, p, fmtEntry(k, mp))
		}
	} else if !eqEntry(k, mp, m[i]) {
		return fmt.Errorf("find %x@%v: got %s, want %s (entry %d of %d)", v, p, fmtEntry(k, mp), fmtEntry(rv(m[i].val, m[i].dp), m[i].leaf.mp()), i, len(m))
	}
	ok, err := t.Contains(rv(v, ptr{}))
	if err != nil {
		return fmt.Errorf("contains %x: unexpected error %v", v, err)
	}
	j := m.lower(v, ptr{})
	want := j < len(m) && bytes.Equal(m[j].val, v)
	if ok != want {
		return fmt.Errorf("contains %x: got %v want %v (tree of %d entries)", v, ok, want, len(m))
	}
	return nil
}

// neighbours returns probes around an entry: itself, just below, just above.
func probesAround(e entry, fixed bool) []entry {
	out := []entry{e}
	add := func(v []byte, p ptr) { out = append(out, entry{val: v, dp: p}) }
	add(e.val, ptr{})
	add(e.val, ptr{^uint64(0), ^uint32(0)})
	if e.dp.O > 0 {
		add(e.val, ptr{e.dp.O - 1, ^uint32(0)})
	}
	if e.dp.L < ^uint32(0) {
		add(e.val, ptr{e.dp.O, e.dp.L + 1})
	}
	if len(e.val) > 0 {
		up := append([]byte{}, e.val...)
		for i := len(up) - 1; i >= 0; i-- {
			up[i]++
			if up[i] != 0 {
				break
			}
		}
		add(up, ptr{})
		down := append([]byte{}, e.val...)
		for i := len(down) - 1; i >= 0; i-- {
			down[i]--
			if down[i] != 255 {
				break
			}
		}
		add(down, ptr{^uint64(0), 0})
		add(e.val[:len(e.val)-1], ptr{})
	}
	add(append(append([]byte{}, e.val...), 0), ptr{})
	return out
}

// pickProbe chooses a probe from the case: near a stored entry, or the drawn value.
func pickProbe(m model, op treeOp) (entry, bool) {
	if len(m) == 0 || op.Pick%4 == 0 {
		return entry{val: op.Val, dp: op.DP}, false
	}
	e := m[(op.Pick/4)%len(m)]
	ps := probesAround(e, true)
	return ps[(op.Pick/7)%len(ps)], true
}

func collectForward(t *bptree.BPTree, v []byte, p ptr, m model) error {
	it, err := t.Iter(rv(v, p))
	if err != nil {
		return fmt.Errorf("iter: %v", err)
	}
	i := m.lower(v, p)
	start := i
	for it.Next() {
		if i >= len(m) {
			return fmt.Errorf("forward from %x@%v: extra entry %s after the last one", v, p, fmtEntry(it.Key(), it.Pointer()))
		}
		if !eqEntry(it.Key(), it.Pointer(), m[i]) {
			return fmt.Errorf("forward from %x@%v: step %d got %s want %s", v, p, i-start, fmtEntry(it.Key(), it.Pointer()), fmtEntry(rv(m[i].val, m[i].dp), m[i].leaf.mp()))
		}
		i++
	}
	if it.Err() != nil {
		return fmt.Errorf("forward: unexpected error %v", it.Err())
	}
	if i != len(m) {
		return fmt.Errorf("forward from %x@%v: ended after %d entries, %d are at or after the probe", v, p, i-start, len(m)-start)
	}
	return nil
}

func collectBackward(t *bptree.BPTree, v []byte, p ptr, m model) error {
	it, err := t.Iter(rv(v, p))
	if err != nil {
		return fmt.Errorf("iter: %v", err)
	}
	i := m.lower(v, p) - 1
	start := i
	for it.Prev() {
		if i < 0 {
			return fmt.Errorf("backward from %x@%v: extra entry %s before the first one", v, p, fmtEntry(it.Key(), it.Pointer()))
		}
		if !eqEntry(it.Key(), it.Pointer(), m[i]) {
			return fmt.Errorf("backward from %x@%v: step %d got %s want %s", v, p, start-i, fmtEntry(it.Key(), it.Pointer()), fmtEntry(rv(m[i].val, m[i].dp), m[i].leaf.mp()))
		}
		i--
	}
	if it.Err() != nil {
		return fmt.Errorf("backward: unexpected error %v", it.Err())
	}
	if i != -1 {
		return fmt.Errorf("backward from %x@%v: ended after %d entries, %d are before the probe", v, p, start-i, start+1)
	}
	return nil
}

func mixedWalk(t *bptree.BPTree, v []byte, p ptr, m model, walk []bool) (int, error) {
	it, err := t.Iter(rv(v, p))
	if err != nil {
		return 0, fmt.Errorf("iter: %v", err)
	}
	pos := m.lower(v, p)
	first := true
	turns := 0
	for i, fwd := range walk {
		np := pos
		if fwd {
			if !first {
				np++
			}
		} else {
			np--
		}
		if np < 0 || np >= len(m) {
			// The first step out of range must report the end; what happens after the
			// end is not specified, so the walk stops here.
			var got bool
			if fwd {
				got = it.Next()
			} else {
				got = it.Prev()
			}
			if got {
				return turns, fmt.Errorf("walk %v from %x@%v: step %d moved outside of the stored range to %s", walk[:i+1], v, p, i, fmtEntry(it.Key(), it.Pointer()))
			}
			return turns, nil
		}
		if i > 0 && walk[i-1] != fwd {
			turns++
		}
		var got bool
		if fwd {
			got = it.Next()
		} else {
			got = it.Prev()
		}
		first = false
		if !got {
			return turns, fmt.Errorf("walk %v from %x@%v: step %d ended early (err %v), expected entry %d of %d", walk[:i+1], v, p, i, it.Err(), np, len(m))
		}
		if !eqEntry(it.Key(), it.Pointer(), m[np]) {
			return turns, fmt.Errorf("walk %v from %x@%v: step %d at %s, want %s", walk[:i+1], v, p, i, fmtEntry(it.Key(), it.Pointer()), fmtEntry(rv(m[np].val, m[np].dp), m[np].leaf.mp()))
		}
		pos = np
	}
	return turns, nil
}

// rangingWalk moves one iterator over the stored range in runs of drawn lengths and directions,
// never leaving the range, and returns how often it turned around.
func rangingWalk(t *bptree.BPTree, m model, seed uint64, steps int) (int, error) {
	if len(m) < 2 {
		return 0, nil
	}
	r := splitmix(seed)
	pos := int(r.next() % uint64(len(m)))
	it, err := t.Iter(rv(m[pos].val, m[pos].dp))
	if err != nil {
		return 0, fmt.Errorf("iter: %v", err)
	}
	if !it.Next() || !eqEntry(it.Key(), it.Pointer(), m[pos]) {
		return 0, fmt.Errorf("an iterator does not start at entry %d of %d (%v)", pos, len(m), it.Err())
	}
	turns, back := 0, 0
	for d := 1; steps > 0; d = -d {
		turns++
		var n int
		switch r.next() % 5 {
		case 0:
			n = 1 + int(r.next()%3)
		case 1, 2: // as far as it came, or nearly
			n = back - 1 + int(r.next()%3)
		default:
			n = 1 + int(r.next()%uint64(min(len(m), 700)))
		}
		for back = 0; back < n && pos+d >= 0 && pos+d < len(m); back++ {
			pos += d
			steps--
			if d > 0 && !it.Next() || d < 0 && !it.Prev() {
				return turns, fmt.Errorf("a mixed walk ended before entry %d of %d (err %v)", pos, len(m), it.Err())
			}
			if !eqEntry(it.Key(), it.Pointer(), m[pos]) {
				return turns, fmt.Errorf("a mixed walk is at %s, want entry %d: %s (turn %d)", fmtEntry(it.Key(), it.Pointer()), pos, fmtEntry(rv(m[pos].val, m[pos].dp), m[pos].leaf.mp()), turns)
			}
		}
		if back == 0 {
			steps--
		}
	}
	return turns, nil
}

type treeChecks struct{ find, iter, structure, reject, cost bool }

func runTreeCase(c treeCase, ctx *Ctx, ck treeChecks) error {
	f := &forest{st: newMem(nil), specs: c.Trees}
	defer f.release()
	if err := f.open(); err != nil {
		return err
	}
	models := make([]model, len(c.Trees))
	reopened := false
	rejected := 0
	walked := 0
	for oi, op := range c.Ops {
		t, spec := f.trees[op.Tree], c.Trees[op.Tree]
		if k := op.H % (len(f.more) + 1); k > 0 {
			t = f.more[k-1][op.Tree]
			ctx.Label("second-handle")
		}
		m := &models[op.Tree]
		fail := func(err error) error {
			return fmt.Errorf("op %d (%s on tree %d, width %d, %d entries): %w", oi, op.Kind, op.Tree, spec.Width, len(*m), err)
		}
		switch op.Kind {
		case "ins", "bulk":
			for _, e := range op.expand(spec.Width) {
				if spec.Width == 0 {
					e.dp = f.place(e.val)
					f.refresh()
				}
				if m.has(e.val, e.dp) {
					if ck.reject {
						if err := expectReject(f, t, e); err != nil {
							return fail(err)
						}
						rejected++
					}
					continue
				}
				// the key buffer is private to the tree call
				if err := t.Insert(rv(append([]byte{}, e.val...), e.dp), e.leaf.mp()); err != nil {
					return fail(fmt.Errorf("insert %x@%v: %v", e.val, e.dp, err))
				}
				m.insert(e)
			}
			if ck.structure {
				if err := checkStructure(f, op.Tree, *m); err != nil {
					return fail(err)
				}
			}
		case "dup":
			if len(*m) == 0 {
				continue
			}
			e := (*m)[op.Pick%len(*m)]
			e.leaf = op.Leaf
			if err := expectReject(f, t, e); err != nil {
				return fail(err)
			}
			rejected++
		case "wrong":
			if spec.Width == 0 {
				continue
			}
			n := op.Pick % (2*spec.Width + 2)
			if n == spec.Width-1 {
				n++
			}
			if op.Pick%5 == 0 { // the right length, but for a multiple of 2^16
				n = spec.Width - 1 + (1+op.Pick%2)<<16
			}
			e := entry{be(uint64(op.Pick), n), op.DP, op.Leaf}
			if err := expectReject(f, t, e); err != nil {
				return fail(fmt.Errorf("key of %d bytes in a tree of width %d: %w", n, spec.Width, err))
			}
			rejected++
		case "reopen":
			if err := f.open(); err != nil {
				return fail(err)
			}
			reopened = true
		case "again":
			if len(f.more) < 3 {
				ts, err := f.handles()
				if err != nil {
					return fail(err)
				}
				f.more = append(f.more, ts)
				f.refresh()
			}
		case "leap":
			if f.leap(leaps[op.N]) {
				ctx.Label("leap")
			}
			if err := f.open(); err != nil {
				return fail(err)
			}
		case "probe":
			e, _ := pickProbe(*m, op)
			if ck.find {
				if err := checkFind(t, *m, e.val, e.dp); err != nil {
					return fail(err)
				}
			}
			if ck.iter {
				if err := collectForward(t, e.val, e.dp, *m); err != nil {
					return fail(err)
				}
				if err := collectBackward(t, e.val, e.dp, *m); err != nil {
					return fail(err)
				}
			}
		case "walk":
			if ck.iter {
				e, _ := pickProbe(*m, op)
				n, err := mixedWalk(t, e.val, e.dp, *m, op.Walk)
				if err != nil {
					return fail(err)
				}
				walked += n
			}
		}
	}
	// final sweep, before and after a reopen
	for pass := 0; pass < 2; pass++ {
		for ti, t := range f.trees {
			m := models[ti]
			fail := func(err error) error {
				return fmt.Errorf("final check pass %d of tree %d (width %d, %d entries): %w", pass, ti, c.Trees[ti].Width, len(m), err)
			}
			step := 1
			lim := 160
			if pass == 1 {
				lim = 50
			}
			if len(m) > lim {
				step = len(m) / lim
			}
			if ck.find {
				for i := 0; i < len(m); i += step {
					ps := []entry{m[i]}
					if (i/step)%8 == 0 || len(m) < 40 {
						ps = probesAround(m[i], true)
					}
					for _, p := range ps {
						if err := checkFind(t, m, p.val, p.dp); err != nil {
							return fail(err)
						}
					}
				}
				for _, v := range [][]byte{{}, {0}, {255, 255, 255, 255, 255, 255, 255, 255, 255}} {
					if err := checkFind(t, m, v, ptr{}); err != nil {
						return fail(err)
					}
				}
			}
			if ck.iter {
				if err := collectForward(t, nil, ptr{}, m); err != nil {
					return fail(err)
				}
				if err := collectBackward(t, bytes.Repeat([]byte{255}, 2100), ptr{^uint64(0), ^uint32(0)}, m); err != nil {
					return fail(err)
				}
				// longer mixed walks, whose runs cross leaves and come back
				for k := 0; k < 3-2*pass; k++ {
					n, err := rangingWalk(t, m, uint64(len(m)*7+ti*3+k), 1200-800*pass)
					if err != nil {
						return fail(err)
					}
					walked += n
				}
				// first steps from a sample of probes around stored entries
				for i := 0; i < len(m); i += max(1, len(m)/(40-25*pass)) {
					for _, p := range probesAround(m[i], true) {
						for _, w := range [][]bool{{true}, {false}, {true, true, true}, {false, false, true}} {
							if _, err := mixedWalk(t, p.val, p.dp, m, w); err != nil {
								return fail(err)
							}
						}
					}
				}
			}
			if ck.structure {
				if err := checkStructure(f, ti, m); err != nil {
					return fail(err)
				}
			}
			if ck.cost {
				if err := f.checkReads(ti, m, ctx); err != nil {
					return fail(err)
				}
			}
			d := f.depth(ti)
			ctx.Labelf(d == 1, "depth1")
			ctx.Labelf(d == 2, "depth2")
			ctx.Labelf(d >= 3, "depth3+")
			ctx.Labelf(c.Trees[ti].Width == 0, "referenced")
			if d >= 2 && !ck.cost && (!ck.reject || rejected > 0) {
				ctx.NT(true)
			}
		}
		if err := f.open(); err != nil {
			return fmt.Errorf("reopen: %w", err)
		}
	}
	ctx.Labelf(reopened, "reopened")
	ctx.Labelf(rejected > 0, "rejected")
	ctx.Labelf(walked > 0, "turned")
	ctx.Labelf(len(c.Trees) > 1, "several-trees")
	return nil
}

// expectReject performs an insert that must be refused without changing a byte.
func expectReject(f *forest, t *bptree.BPTree, e entry) error {
	before := f.st.snapshot()
	err := t.Insert(rv(append([]byte{}, e.val...), e.dp), e.leaf.mp())
	if err == nil {
		return fmt.Errorf("insert of %x@%v must be refused but succeeded", e.val, e.dp)
	}
	if !f.st.same(before) {
		return fmt.Errorf("refused insert of %x@%v changed the file (error was: %v)", e.val, e.dp, err)
	}
	return nil
}

// slotOffset of the i-th slot of the first slot page, by the published layout.
func slotOffset(i int) int { return 4096 + 9 + i*(256+9) }

func (f *forest) depth(ti int) int {
	raw := f.st.buf
	s := slotOffset(ti)
	root, length := le64(raw[s:]), le32(raw[s+8:])
	if length == 0 {
		return 0
	}
	d := 1
	for off := root; ; d++ {
		n, err := decodeBPPage(raw, off, f.specs[ti].Width)
		if err != nil || n.leaf || d > 50 {
			return d
		}
		off = n.children[0]
	}
}

// checkStructure walks the pages of one tree with the independent decoder.
func checkStructure(f *forest, ti int, m model) error {
	raw := f.st.buf
	s := slotOffset(ti)
	root, length := le64(raw[s:]), le32(raw[s+8:])
	if length == 0 {
		if len(m) != 0 {
			return fmt.Errorf("tree has no root but %d entries were inserted", len(m))
		}
		return nil
	}
	// pages owned by the other trees and by the file itself
	seen := map[uint64]bool{0: true, 4096: true}
	for tj := range f.specs {
		if tj == ti {
			continue
		}
		so := slotOffset(tj)
		if le32(raw[so+8:]) == 0 {
			continue
		}
		if err := walkPages(raw, le64(raw[so:]), f.specs[tj].Width, seen, nil); err != nil {
			return fmt.Errorf("tree %d: %w", tj, err)
		}
	}
	var got []entry
	if err := walkPages(raw, root, f.specs[ti].Width, seen, &got); err != nil {
		return err
	}
	if len(got) != len(m) {
		return fmt.Errorf("pages hold %d entries, %d were inserted", len(got), len(m))
	}
	for i := range got {
		v := got[i].val
		if f.specs[ti].Width == 0 {
			d := got[i].dp
			if d.O+uint64(d.L) > uint64(len(f.data)) {
				return fmt.Errorf("entry %d refers outside of the data file", i)
			}
			v = revParser{}.Parse(f.data[d.O : d.O+uint64(d.L)])
		}
		if cmpKey(v, got[i].dp, m[i].val, m[i].dp) != 0 || got[i].leaf != m[i].leaf {
			return fmt.Errorf("entry %d of the leaf sequence is %x@%v -> %v, want %x@%v -> %v", i, v, got[i].dp, got[i].leaf, m[i].val, m[i].dp, m[i].leaf)
		}
	}
	// separators bound the subtrees
	val := func(k bpKey) []byte {
		if f.specs[ti].Width == 0 {
			return revParser{}.Parse(f.data[k.dp.O : k.dp.O+uint64(k.dp.L)])
		}
		return k.val
	}
	return checkBounds(raw, root, f.specs[ti].Width, val, nil, nil)
}

func init() {
	register("C01", "operation sequences (single inserts, bulk inserts of drawn pattern and size, reopen, probes) over 1-3 B+ trees of drawn widths in one page file, compared with a sorted list; non-trivial = some tree split into at least two levels",
		sub("model", 1600, 24000, genTreeCase(700, false), func(c treeCase, ctx *Ctx) error {
			return runTreeCase(c, ctx, treeChecks{find: true})
		}),
		sub("deep", 64, 1200, genTreeCase(6000, false), func(c treeCase, ctx *Ctx) error {
			return runTreeCase(c, ctx, treeChecks{find: true})
		}))
	register("C02", "trees as for C01; full forward and backward traversals from drawn probes at, below and above stored keys, mixed walks, and first steps around a sample of all entries, compared with a sorted list; non-trivial = some tree split into at least two levels",
		sub("model", 1000, 16000, genTreeCase(700, false), func(c treeCase, ctx *Ctx) error {
			return runTreeCase(c, ctx, treeChecks{iter: true})
		}),
		sub("deep", 64, 1000, genTreeCase(5000, false), func(c treeCase, ctx *Ctx) error {
			return runTreeCase(c, ctx, treeChecks{iter: true})
		}))
	register("C03", "histories mixing valid inserts with duplicate and wrong-width inserts on 1-3 trees; refused inserts must leave the file bytes equal, and after each insert batch an independent page decoder checks size, depth, ownership, order, separators and contents; non-trivial = at least two levels and at least one refused insert",
		sub("model", 1600, 16000, genTreeCase(500, true), func(c treeCase, ctx *Ctx) error {
			return runTreeCase(c, ctx, treeChecks{structure: true, reject: true})
		}),
		sub("deep", 64, 800, genTreeCase(5000, true), func(c treeCase, ctx *Ctx) error {
			return runTreeCase(c, ctx, treeChecks{structure: true, reject: true})
		}))
}
