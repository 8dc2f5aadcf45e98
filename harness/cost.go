package main

// C39: what a lookup reads.

import (
	"bytes"
	"fmt"
	"math"

	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/btree"
	"github.com/kevmo314/appendable/pkg/hnsw"
	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
)

// countParser counts the values that are resolved from the data file.
type countParser struct{ n int }

func (p *countParser) Parse(b []byte) []byte {
	p.n++
	return revParser{}.Parse(b)
}

// treeShape says how the entries of a tree are spread over its pages.
type treeShape struct {
	depth  int
	most   int   // keys on the fullest page
	leafOf []int // the leaf, counted from the left, of each entry
	leaves int
}

func (f *forest) shape(ti int) (treeShape, error) {
	var s treeShape
	so := slotOffset(ti)
	if le32(f.st.buf[so+8:]) == 0 {
		return s, nil
	}
	var walk func(off uint64, depth int) error
	walk = func(off uint64, depth int) error {
		p, err := decodeBPPage(f.st.buf, off, f.specs[ti].Width)
		if err != nil {
			return err
		}
		s.depth = max(s.depth, depth)
		s.most = max(s.most, len(p.keys))
		if p.leaf {
			for range p.keys {
				s.leafOf = append(s.leafOf, s.leaves)
			}
			s.leaves++
			return nil
		}
		if depth > 50 {
			return fmt.Errorf("the tree is more than %d levels deep", depth)
		}
		for _, c := range p.children {
			if err := walk(c, depth+1); err != nil {
				return err
			}
		}
		return nil
	}
	return s, walk(le64(f.st.buf[so:]), 1)
}

// readCost looks for (v, p) and walks from there, and compares what was read with the
// pages that lie on the way.
func (f *forest) readCost(ti int, s treeShape, m model, v []byte, p ptr, steps int) error {
	t := &bptree.BPTree{PageFile: f.trees[ti].PageFile, MetaPage: f.trees[ti].MetaPage, Width: f.trees[ti].Width}
	count := &countParser{}
	if f.specs[ti].Width == 0 {
		t.Data, t.DataParser = f.data, count
	}
	check := func(what string, pages int) error {
		defer func() { f.st.resetCounters(); count.n = 0 }()
		if f.st.writes != 0 {
			return fmt.Errorf("%s writes %d times", what, f.st.writes)
		}
		// besides the pages of the tree, the record of the root is read
		if most := int64(pages+1) * 4096; f.st.bytesRead > most {
			return fmt.Errorf("%s reads %d bytes; %d pages of the tree (%d levels, %d leaves) are enough", what, f.st.bytesRead, pages, s.depth, s.leaves)
		}
		if count.n > pages*s.most {
			return fmt.Errorf("%s resolves %d values of the data file; %d pages of at most %d keys are enough", what, count.n, pages, s.most)
		}
		return nil
	}
	f.st.resetCounters()
	// the descent, and the way to the next leaf, and as much again
	if _, _, err := t.Find(rv(v, p)); err != nil {
		return err
	}
	if err := check(fmt.Sprintf("Find(%x@%v)", v, p), 3*s.depth); err != nil {
		return err
	}
	if _, err := t.Contains(rv(v, p)); err != nil {
		return err
	}
	if err := check(fmt.Sprintf("Contains(%x@%v)", v, p), 3*s.depth); err != nil {
		return err
	}
	at := m.lower(v, p)
	for _, fwd := range []bool{true, false} {
		it, err := t.Iter(rv(v, p))
		if err != nil {
			return err
		}
		i := at
		if !fwd {
			i--
		}
		from := min(max(i, 0), len(m)-1)
		n := 0
		for ; n < steps; n++ {
			if fwd && !it.Next() || !fwd && !it.Prev() {
				break
			}
			if it.Key(); it.Pointer().Length > 0 {
				it.Key()
			}
		}
		if err := it.Err(); err != nil {
			return err
		}
		to := from
		if n > 0 {
			to = from + n - 1
			if !fwd {
				to = from - n + 1
			}
		}
		crossed := 0
		if len(m) > 0 {
			a, b := s.leafOf[from], s.leafOf[min(max(to, 0), len(m)-1)]
			crossed = max(a-b, b-a)
		}
		if err := check(fmt.Sprintf("an iterator from %x@%v taking %d steps (forward: %v), over %d boundaries of leaves,", v, p, n, fwd, crossed), 3*s.depth+2*crossed); err != nil {
			return err
		}
	}
	return nil
}

func (f *forest) checkReads(ti int, m model, ctx *Ctx) error {
	s, err := f.shape(ti)
	if err != nil {
		return err
	}
	if len(s.leafOf) != len(m) {
		return fmt.Errorf("the pages hold %d entries, %d were inserted", len(s.leafOf), len(m))
	}
	ctx.Labelf(s.leaves >= 20, "leaves>=20")
	ctx.Labelf(f.specs[ti].Width == 0 && s.leaves > 1, "resolved")
	if s.leaves > 4*s.depth {
		ctx.NT(true)
	}
	if len(m) == 0 {
		return f.readCost(ti, s, m, nil, ptr{}, 3)
	}
	for i := 0; i < len(m); i += max(1, len(m)/25) {
		for k, p := range probesAround(m[i], true) {
			if (k+i)%3 != 0 && len(m) > 40 {
				continue
			}
			if err := f.readCost(ti, s, m, p.val, p.dp, []int{1, 5, 40, 200}[(i+k)%4]); err != nil {
				return err
			}
		}
	}
	for _, e := range []entry{{}, {val: bytes.Repeat([]byte{255}, 1100), dp: ptr{^uint64(0), ^uint32(0)}}} {
		if err := f.readCost(ti, s, m, e.val, e.dp, 300); err != nil {
			return err
		}
	}
	return nil
}

// judgeVecReads fills a vector store and looks some of the ids up.
func judgeVecReads(c vecCase, ctx *Ctx) error {
	st := newMem(nil)
	pf, err := pagefile.NewPageFile(st)
	if err != nil {
		return err
	}
	head, err := linkedpage.NewMultiBPTree(pf, 0)
	if err != nil {
		return err
	}
	slot, err := head.AddNext()
	if err != nil {
		return err
	}
	tree := slot.BTree(&btree.BTree{VectorDim: uint64(c.Dim)})
	seen := map[uint64]bool{}
	var ids []uint64
	for _, op := range c.Ops {
		r := splitmix(op.Seed)
		for i := 0; i < max(1, op.N); i++ {
			id := op.ID
			if op.Kind == "bulk" {
				switch op.Pat {
				case 0:
					id += uint64(i)
				case 1:
					id += uint64(op.N-i) * 2
				case 2:
					id = r.next() >> (r.next() % 64)
				case 3:
					id += uint64(r.intn(3 * op.N))
				}
			}
			if op.Kind != "ins" && op.Kind != "bulk" || seen[id] {
				continue
			}
			seen[id] = true
			ids = append(ids, id)
			if err := tree.Insert(pointer.ReferencedId{Value: hnsw.Id(id), DataPointer: op.DP.mp()}, make(hnsw.Point, c.Dim)); err != nil {
				return err
			}
		}
	}
	if len(ids) == 0 {
		return nil
	}
	// at least as many vectors lie on a page as half of what fits in one
	fan := max(2, (4096-8)/(4*c.Dim+40)/2)
	levels := 2 + int(math.Ceil(math.Log(float64(len(ids)))/math.Log(float64(fan))))
	ctx.NT(len(st.buf)/4096 > 4*levels)
	for i := 0; i < len(ids); i += max(1, len(ids)/60) {
		st.resetCounters()
		if _, _, err := tree.Find(pointer.ReferencedId{Value: hnsw.Id(ids[i])}); err != nil {
			return fmt.Errorf("looking up id %d of %d: %w", ids[i], len(ids), err)
		}
		if st.writes != 0 {
			return fmt.Errorf("looking up id %d writes %d times", ids[i], st.writes)
		}
		if st.bytesRead > int64(levels+1)*4096 {
			return fmt.Errorf("looking up id %d of %d vectors of dimension %d reads %d bytes; %d pages are enough", ids[i], len(ids), c.Dim, st.bytesRead, levels+1)
		}
	}
	return nil
}

func init() {
	register("C39", "lookups, membership tests and iterators in generated B+ trees, and lookups in vector stores; non-trivial = the tree has more than four times as many leaves as levels (the store as many pages)",
		sub("trees", 3000, 50000, genTreeCase(900, false), func(c treeCase, ctx *Ctx) error {
			return runTreeCase(c, ctx, treeChecks{cost: true})
		}),
		sub("deep", 240, 4000, genTreeCase(6000, false), func(c treeCase, ctx *Ctx) error {
			return runTreeCase(c, ctx, treeChecks{cost: true})
		}),
		sub("vectors", 800, 16000, genVecCase, judgeVecReads))
}
