package main

// C16-C19: vector store, distance heap, nearest-neighbour index, page manager.

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"slices"
	"sort"

	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/btree"
	"github.com/kevmo314/appendable/pkg/hnsw"
	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
	"github.com/kevmo314/appendable/pkg/vectorpage"
	"pgregory.net/rapid"
)

// ---- C16

type vecOp struct {
	Kind string   `json:"k"`
	ID   uint64   `json:"id"`
	DP   ptr      `json:"dp"`
	Bits []uint32 `json:"bits,omitempty"`
	N    int      `json:"n,omitempty"`
	Pat  int      `json:"pat,omitempty"`
	Seed uint64   `json:"seed,omitempty"`
	Pick int      `json:"pick,omitempty"`
}

type vecCase struct {
	Dim int     `json:"dim"`
	Ops []vecOp `json:"ops"`
}

func genVecCase(t *rapid.T) vecCase {
	var c vecCase
	switch weighted(t, "dk", 4, 3, 2) {
	case 0:
		c.Dim = rapid.IntRange(1, 6).Draw(t, "dim")
	case 1:
		c.Dim = rapid.IntRange(7, 130).Draw(t, "dim")
	case 2:
		c.Dim = rapid.IntRange(131, 495).Draw(t, "dim")
	}
	perPage := 4000 / (4*c.Dim + 6)
	leaping := rapid.IntRange(0, 9).Draw(t, "leaping") == 9 // the file grows beyond 2 or 4 GiB once
	n := rapid.IntRange(1, 14).Draw(t, "n")
	for i := 0; i < n; i++ {
		if skip(t) {
			continue
		}
		op := vecOp{Pick: rapid.IntRange(0, 1<<16).Draw(t, "pick")}
		k := weighted(t, "kind", 5, 3, 2, 2, 3)
		if i == 0 {
			k = 1
		}
		if i > 0 && leaping && rapid.IntRange(0, 3).Draw(t, "leap") == 3 {
			leaping = false
			op.Kind, op.N = "leap", rapid.IntRange(0, len(leaps)-1).Draw(t, "far")
			c.Ops = append(c.Ops, op)
			continue
		}
		switch k {
		case 0:
			op.Kind = "ins"
			op.ID = genOffset().Draw(t, "id")
			if rapid.Bool().Draw(t, "near") {
				op.ID = uint64(rapid.IntRange(0, 30).Draw(t, "small"))
			}
			op.DP = ptr{genOffset().Draw(t, "o"), genU32().Draw(t, "l")}
			for j := 0; j < c.Dim; j++ {
				if j < 4 {
					op.Bits = append(op.Bits, genBits().Draw(t, "b"))
				} else {
					op.Bits = append(op.Bits, floatBits[(j+op.Pick)%len(floatBits)])
				}
			}
		case 1:
			op.Kind = "bulk"
			op.N = drawSize(t, min(1500, perPage*perPage/2+5*perPage+20))
			op.Pat = rapid.IntRange(0, 3).Draw(t, "pat")
			op.Seed = rapid.Uint64Range(0, 1<<16).Draw(t, "seed")
			op.ID = uint64(rapid.IntRange(0, 50).Draw(t, "base"))
		case 2:
			op.Kind = "dup"
		case 3:
			op.Kind = "reopen"
		case 4:
			op.Kind = "absent"
			op.ID = genOffset().Draw(t, "id")
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type vecEntry struct {
	dp   ptr
	bits []uint32
}

func judgeVec(c vecCase, ctx *Ctx) error {
	return judgeVecFile(c, ctx, nil)
}

// judgeVecFile judges a history, and its file at the end.
func judgeVecFile(c vecCase, ctx *Ctx, file func(raw []byte, model map[uint64]vecEntry) error) error {
	st := newMem(nil)
	defer st.release()
	var tree *btree.BTree
	open := func() error {
		pf, err := pagefile.NewPageFile(st)
		if err != nil {
			return err
		}
		head, err := linkedpage.NewMultiBPTree(pf, 0)
		if err != nil {
			return err
		}
		slots, err := head.Collect()
		if err != nil {
			return err
		}
		if len(slots) == 0 {
			s, err := head.AddNext()
			if err != nil {
				return err
			}
			slots = append(slots, s)
		}
		tree = slots[0].BTree(&btree.BTree{VectorDim: uint64(c.Dim)})
		return nil
	}
	if err := open(); err != nil {
		return err
	}
	model := map[uint64]vecEntry{}
	var ids []uint64
	dups, reopened := 0, false
	lookup := func(id uint64) error {
		k, v, err := tree.Find(pointer.ReferencedId{Value: hnsw.Id(id)})
		e, ok := model[id]
		if !ok {
			if err == nil && (len(model) > 0 || len(v) > 0) {
				return fmt.Errorf("looking up id %d, which is not stored, gave %v without an error", id, k)
			}
			if len(v) > 0 {
				return fmt.Errorf("looking up id %d, which is not stored, gave a vector", id)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("looking up stored id %d of %d: %v", id, len(model), err)
		}
		if uint64(k.Value) != id || k.DataPointer != e.dp.mp() {
			return fmt.Errorf("id %d: found %v, want data pointer %v", id, k, e.dp)
		}
		if !sameBits(v, e.bits) {
			return fmt.Errorf("id %d: vector %v, want %v", id, v, pointOf(e.bits))
		}
		return nil
	}
	insert := func(id uint64, e vecEntry) error {
		var before []byte
		if _, ok := model[id]; ok {
			before = st.snapshot()
		}
		err := tree.Insert(pointer.ReferencedId{Value: hnsw.Id(id), DataPointer: e.dp.mp()}, pointOf(e.bits))
		if _, ok := model[id]; ok {
			dups++
			if err == nil {
				return fmt.Errorf("storing id %d a second time was accepted", id)
			}
			if !st.same(before) {
				return fmt.Errorf("refused insert of id %d changed the file", id)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("insert id %d into %d: %v", id, len(model), err)
		}
		model[id] = e
		ids = append(ids, id)
		return nil
	}
	for i, op := range c.Ops {
		err := func() error {
			switch op.Kind {
			case "ins":
				if err := insert(op.ID, vecEntry{op.DP, op.Bits}); err != nil {
					return err
				}
				return lookup(op.ID)
			case "bulk":
				r := splitmix(op.Seed)
				for j := 0; j < op.N; j++ {
					var id uint64
					switch op.Pat {
					case 0:
						id = op.ID + uint64(j)
					case 1:
						id = op.ID + uint64(op.N-j)*2
					case 2:
						id = r.next() >> (r.next() % 64)
					case 3:
						id = op.ID + uint64(r.intn(3*op.N))
					}
					e := vecEntry{dp: ptr{r.next() >> (r.next() % 64), uint32(r.next() >> (r.next() % 64))}}
					for d := 0; d < c.Dim; d++ {
						e.bits = append(e.bits, uint32(r.next()))
					}
					if err := insert(id, e); err != nil {
						return err
					}
				}
			case "dup":
				if len(ids) > 0 {
					return insert(ids[op.Pick%len(ids)], vecEntry{bits: make([]uint32, c.Dim)})
				}
			case "leap":
				if file == nil && st.leap(leaps[op.N]) {
					ctx.Label("leap")
					return open()
				}
			case "reopen":
				reopened = true
				return open()
			case "absent":
				return lookup(op.ID)
			}
			return nil
		}()
		if err != nil {
			return fmt.Errorf("op %d (%s): %w", i, op.Kind, err)
		}
	}
	for pass := 0; pass < 2; pass++ {
		for _, id := range ids {
			for _, x := range []uint64{id, id + 1, id - 1} {
				if x != id && pass == 1 {
					continue
				}
				if err := lookup(x); err != nil {
					return fmt.Errorf("final check %d: %w", pass, err)
				}
			}
		}
		if err := open(); err != nil {
			return err
		}
	}
	if file != nil {
		if err := file(st.buf, model); err != nil {
			return err
		}
	}
	pages := (len(st.buf)-int(st.hole))/pageSize - 2
	ctx.Labelf(pages > 1, "split")
	ctx.Labelf(pages > 20, "deep")
	ctx.Labelf(dups > 0, "refused")
	ctx.Labelf(reopened, "reopened")
	ctx.Labelf(c.Dim > 130, "large-dim")
	ctx.NT(pages > 1)
	return nil
}

// ---- reading heap items, whose fields are not exported

func itemFields(it *hnsw.Item) (uint64, float32) {
	if it == nil {
		panic("nil item without an error")
	}
	v := reflect.ValueOf(it).Elem()
	var id uint64
	var dist float32
	okI, okD := false, false
	for i := 0; i < v.NumField(); i++ {
		switch v.Field(i).Kind() {
		case reflect.Uint, reflect.Uint32, reflect.Uint64:
			if !okI {
				id, okI = v.Field(i).Uint(), true
			}
		case reflect.Float32:
			if !okD {
				dist, okD = float32(v.Field(i).Float()), true
			}
		}
	}
	if !okI || !okD {
		panic(harnessError{errors.New("cannot read heap items")})
	}
	return id, dist
}

// ---- C17

type heapOp struct {
	Kind string  `json:"k"`
	H    int     `json:"h"`
	ID   uint    `json:"id,omitempty"`
	Dist uint32  `json:"d,omitempty"` // float bits
	N    int     `json:"n,omitempty"`
	Seed uint64  `json:"seed,omitempty"`
	Vary int     `json:"vary,omitempty"`
	IDs  int     `json:"ids,omitempty"`
	F    float32 `json:"-"`
}

type heapCase struct {
	Ops []heapOp `json:"ops"`
}

func genHeapCase(t *rapid.T) heapCase { return genHeap(t, false) }

func genLargeHeap(t *rapid.T) heapCase { return genHeap(t, true) }

func genHeap(t *rapid.T, large bool) heapCase {
	var c heapCase
	n := rapid.IntRange(1, 60).Draw(t, "n")
	ids := uint(rapid.IntRange(1, 60).Draw(t, "ids"))
	ints := rapid.Bool().Draw(t, "ints")
	for i := 0; i < n; i++ {
		if skip(t) {
			continue
		}
		op := heapOp{H: rapid.IntRange(0, 3).Draw(t, "h")}
		if rapid.IntRange(0, 2).Draw(t, "first") > 0 {
			op.H = 0
		}
		bulk := 1
		if large {
			bulk = 8
		}
		switch weighted(t, "kind", 8, 2, 2, 1, bulk, 3) {
		case 0:
			op.Kind = "ins"
			op.ID = uint(rapid.IntRange(0, int(ids)).Draw(t, "id"))
			if ints {
				op.Dist = math.Float32bits(float32(rapid.IntRange(0, 12).Draw(t, "d")))
			} else {
				f := rapid.Float32().Filter(func(f float32) bool { return f == f }).Draw(t, "f")
				op.Dist = math.Float32bits(f)
			}
		case 1:
			op.Kind = "popmin"
		case 2:
			op.Kind = "popmax"
		case 3:
			op.Kind = "clone"
		case 4:
			op.Kind = "bulk"
			op.N = rapid.IntRange(2, 70).Draw(t, "bn")
			op.Seed = rapid.Uint64Range(0, 1<<16).Draw(t, "seed")
			op.Vary = rapid.IntRange(1, 60).Draw(t, "vary")
			if large {
				op.IDs = []int{300, 5000, 30000}[weighted(t, "bi", 3, 3, 1)]
				op.N = op.IDs/8 + weighted(t, "bn", 1, 1, 1)*op.IDs/2 + rapid.IntRange(0, 100).Draw(t, "bn2")
				op.Vary = []int{20, 1000, 1 << 20}[rapid.IntRange(0, 2).Draw(t, "bv")]
			}
		case 5:
			op.Kind = "update" // of an id that is present
			op.ID = uint(rapid.IntRange(0, 1000).Draw(t, "pick"))
			op.Dist = math.Float32bits(float32(rapid.IntRange(0, 24).Draw(t, "d")) / 2)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// heapModel is a map with its distances in order.
type heapModel struct {
	m map[uint]float32
	d []float32
}

func (h *heapModel) set(id uint, d float32) {
	h.drop(id)
	h.m[id] = d
	i, _ := slices.BinarySearch(h.d, d)
	h.d = slices.Insert(h.d, i, d)
}

func (h *heapModel) drop(id uint) {
	if d, ok := h.m[id]; ok {
		i, found := slices.BinarySearch(h.d, d)
		if !found {
			panic(harnessError{errors.New("the heap's model has lost a distance")})
		}
		h.d = slices.Delete(h.d, i, i+1)
		delete(h.m, id)
	}
}

func judgeHeap(c heapCase, ctx *Ctx) error {
	type pair struct {
		h *hnsw.DistHeap
		heapModel
	}
	hs := []*pair{{hnsw.NewDistHeap(), heapModel{m: map[uint]float32{}}}}
	updates, clones, pops, biggest := 0, 0, 0, 0
	peek := func(i int) error {
		p := hs[i]
		if p.h.Len() != len(p.m) || p.h.IsEmpty() != (len(p.m) == 0) {
			return fmt.Errorf("heap %d has %d items (empty: %v), want %d", i, p.h.Len(), p.h.IsEmpty(), len(p.m))
		}
		biggest = max(biggest, len(p.m))
		lo, e1 := p.h.PeekMinItem()
		hi, e2 := p.h.PeekMaxItem()
		if len(p.m) == 0 {
			if e1 == nil || e2 == nil {
				return fmt.Errorf("heap %d: peeking into an empty heap reports no error", i)
			}
			return nil
		}
		if e1 != nil || e2 != nil {
			return fmt.Errorf("heap %d: peek failed: %v %v", i, e1, e2)
		}
		wl, wh := p.d[0], p.d[len(p.d)-1]
		id, d := itemFields(lo)
		if md, ok := p.m[uint(id)]; !ok || md != d || d != wl {
			return fmt.Errorf("heap %d of %d: minimum is id %d at %v, model has that id at %v (%v) and minimum %v", i, len(p.m), id, d, md, ok, wl)
		}
		id, d = itemFields(hi)
		if md, ok := p.m[uint(id)]; !ok || md != d || d != wh {
			return fmt.Errorf("heap %d of %d: maximum is id %d at %v, model has that id at %v (%v) and maximum %v", i, len(p.m), id, d, md, ok, wh)
		}
		return nil
	}
	pop := func(i int, min bool) error {
		p := hs[i]
		var it *hnsw.Item
		var err error
		if min {
			it, err = p.h.PopMinItem()
		} else {
			it, err = p.h.PopMaxItem()
		}
		if len(p.m) == 0 {
			if err == nil {
				return fmt.Errorf("taking from empty heap %d reports no error", i)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("pop from heap %d: %v", i, err)
		}
		lo, hi := p.d[0], p.d[len(p.d)-1]
		want := hi
		if min {
			want = lo
		}
		id, d := itemFields(it)
		md, ok := p.m[uint(id)]
		if !ok || md != d || d != want {
			return fmt.Errorf("heap %d of %d (min %v): removed id %d at %v, model has it at %v (%v), wanted distance %v", i, len(p.m), min, id, d, md, ok, want)
		}
		p.drop(uint(id))
		pops++
		return nil
	}
	for oi, op := range c.Ops {
		hi := op.H % len(hs)
		p := hs[hi]
		ins := func(id uint, d float32) {
			if _, ok := p.m[id]; ok {
				updates++
			}
			p.h.Insert(hnsw.Id(id), d)
			p.set(id, d)
		}
		var err error
		switch op.Kind {
		case "ins":
			ins(op.ID, math.Float32frombits(op.Dist))
		case "update":
			if len(p.m) > 0 {
				var ids []uint
				for id := range p.m {
					ids = append(ids, id)
				}
				sort.Slice(ids, func(a, b int) bool { return ids[a] < ids[b] })
				ins(ids[int(op.ID)%len(ids)], math.Float32frombits(op.Dist))
			}
		case "bulk":
			r := splitmix(op.Seed)
			for j := 0; j < op.N; j++ {
				ins(uint(r.intn(max(op.IDs, 80))), float32(r.intn(op.Vary)))
			}
		case "popmin":
			err = pop(hi, true)
		case "popmax":
			err = pop(hi, false)
		case "clone":
			if len(hs) < 4 {
				m := map[uint]float32{}
				for k, v := range p.m {
					m[k] = v
				}
				hs = append(hs, &pair{p.h.Clone(), heapModel{m, slices.Clone(p.d)}})
				clones++
			}
		}
		for i := 0; err == nil && i < len(hs); i++ {
			err = peek(i)
		}
		if err != nil {
			return fmt.Errorf("op %d (%s): %w", oi, op.Kind, err)
		}
	}
	// drain every heap, alternating ends in different ways
	for i, p := range hs {
		for step := 0; len(p.m) > 0; step++ {
			min := []bool{true, false, step%2 == 0, step%3 != 0}[i%4]
			if err := pop(i, min); err != nil {
				return fmt.Errorf("draining: %w", err)
			}
			if err := peek(i); err != nil {
				return fmt.Errorf("draining: %w", err)
			}
		}
		if err := pop(i, true); err != nil {
			return err
		}
		if err := pop(i, false); err != nil {
			return err
		}
	}
	ctx.Labelf(updates > 0, "updates")
	ctx.Labelf(clones > 0, "clones")
	ctx.Labelf(biggest > 15, "over-15-items")
	ctx.Labelf(biggest > 4096, "over-4096-items")
	ctx.NT(biggest > 3 && pops > 0)
	return nil
}

// hugeHeap is one heap of so many items that it has more than 16 levels.
type hugeHeap struct {
	N       int    `json:"n"`
	Seed    uint64 `json:"seed"`
	Order   int    `json:"order"`
	Vary    int    `json:"vary"`
	Updates int    `json:"updates"`
	Drain   int    `json:"drain"`
}

func genHugeHeap(t *rapid.T) hugeHeap {
	return hugeHeap{N: []int{1000, 33000, 66000, 132000}[weighted(t, "n", 1, 1, 3, 3)] + rapid.IntRange(0, 5000).Draw(t, "more"), Seed: rapid.Uint64().Draw(t, "seed"),
		Order: rapid.IntRange(0, 2).Draw(t, "order"), Vary: []int{100, 50000, 1 << 24}[rapid.IntRange(0, 2).Draw(t, "vary")],
		Updates: rapid.IntRange(0, 5000).Draw(t, "updates"), Drain: rapid.IntRange(0, 3).Draw(t, "drain")}
}

func judgeHugeHeap(c hugeHeap, ctx *Ctx) error {
	h := hnsw.NewDistHeap()
	r := splitmix(c.Seed)
	at := make([]float32, c.N)
	for i := range at {
		at[i] = float32(r.intn(c.Vary))
	}
	switch c.Order {
	case 1:
		slices.Sort(at)
	case 2:
		slices.Sort(at)
		slices.Reverse(at)
	}
	for i, d := range at {
		h.Insert(hnsw.Id(i), d)
	}
	for i := 0; i < c.Updates; i++ {
		k := r.intn(c.N)
		at[k] = float32(r.intn(c.Vary))
		h.Insert(hnsw.Id(k), at[k])
	}
	sorted := slices.Clone(at)
	slices.Sort(sorted)
	for lo, hi := 0, c.N; lo < hi; {
		if h.Len() != hi-lo || h.IsEmpty() {
			return fmt.Errorf("%d items (empty: %v), want %d", h.Len(), h.IsEmpty(), hi-lo)
		}
		min := []bool{true, false, (hi-lo)%2 == 0, (hi-lo)%3 != 0}[c.Drain]
		peek, pop, want := h.PeekMaxItem, h.PopMaxItem, sorted[hi-1]
		if min {
			peek, pop, want = h.PeekMinItem, h.PopMinItem, sorted[lo]
		}
		for k, f := range []func() (*hnsw.Item, error){peek, pop} {
			it, err := f()
			if err != nil {
				return err
			}
			id, d := itemFields(it)
			if uint(id) >= uint(c.N) || at[id] != d || d != want {
				return fmt.Errorf("%s of the %s of %d items: id %d at %v, want distance %v", []string{"peek", "removal"}[k], []string{"maximum", "minimum"}[map[bool]int{true: 1}[min]], hi-lo, id, d, want)
			}
			if k == 1 {
				at[id] = float32(math.NaN()) // removed
			}
		}
		if min {
			lo++
		} else {
			hi--
		}
	}
	if _, err := h.PopMinItem(); err == nil || h.Len() != 0 {
		return errors.New("an item is left in a drained heap")
	}
	ctx.Labelf(c.N > 65535, "over-65535-items")
	ctx.NT(true)
	return nil
}

// ---- C18

type annCase struct {
	Dim  int         `json:"dim"`
	EF   int         `json:"ef"`
	M    int         `json:"m"`
	Seed int64       `json:"seed"`
	Pts  [][]float32 `json:"pts"`
	Qs   [][]float32 `json:"qs"`
	Ks   []int       `json:"ks"`
	Bad  int         `json:"bad"`
}

func genPoint(t *rapid.T, dim, kind int) []float32 {
	p := make([]float32, dim)
	for i := range p {
		switch kind {
		case 0:
			p[i] = float32(rapid.IntRange(0, 4).Draw(t, "g"))
		case 1:
			p[i] = float32(rapid.IntRange(-1000, 1000).Draw(t, "c")) / 16
		default:
			p[i] = float32(rapid.Float32Range(-1e6, 1e6).Draw(t, "x"))
		}
	}
	return p
}

func genAnn(maxPts int) func(t *rapid.T) annCase {
	return func(t *rapid.T) annCase {
		c := annCase{Dim: rapid.IntRange(1, []int{6, 40, 130}[weighted(t, "dk", 8, 2, 1)]).Draw(t, "dim"), EF: rapid.IntRange(1, 40).Draw(t, "ef"), M: rapid.IntRange(2, 16).Draw(t, "m"), Seed: rapid.Int64Range(1, 1<<30).Draw(t, "seed")}
		n := drawSize(t, maxPts)
		small := rapid.IntRange(0, 2).Draw(t, "small") == 0
		if small { // within the limits for exact answers
			c.EF = max(c.EF, 3)
			n = rapid.IntRange(1, max(1, min(c.EF, c.M))).Draw(t, "np")
		}
		kind := rapid.IntRange(0, 2).Draw(t, "ptk")
		for i := 0; i < n; i++ {
			c.Pts = append(c.Pts, genPoint(t, c.Dim, kind))
		}
		for i := rapid.IntRange(1, 4).Draw(t, "nq"); i > 0; i-- {
			if rapid.IntRange(0, 3).Draw(t, "qk") == 0 {
				c.Qs = append(c.Qs, c.Pts[rapid.IntRange(0, n-1).Draw(t, "qi")])
			} else {
				c.Qs = append(c.Qs, genPoint(t, c.Dim, kind))
			}
			c.Ks = append(c.Ks, rapid.IntRange(1, max(2, n+3)).Draw(t, "k"))
		}
		c.Bad = rapid.IntRange(0, 9).Draw(t, "bad")
		return c
	}
}

func trueDist(a, b []float32) float64 {
	s := 0.0
	for i := range a {
		d := float64(a[i]) - float64(b[i])
		s += d * d
	}
	return math.Sqrt(s)
}

func near(a, b float64) bool {
	return math.Abs(a-b) <= 1e-4*math.Max(math.Abs(a), math.Abs(b))+1e-6
}

func drainMin(h *hnsw.DistHeap) (ids []uint64, dists []float64, err error) {
	cl := h.Clone()
	for !cl.IsEmpty() {
		it, err := cl.PopMinItem()
		if err != nil {
			return nil, nil, err
		}
		id, d := itemFields(it)
		ids = append(ids, id)
		dists = append(dists, float64(d))
	}
	return ids, dists, nil
}

func seedRand(s int64) {
	rand.Seed(s)
	a := rand.Int63()
	rand.Seed(s)
	if rand.Int63() != a {
		panic(harnessError{errors.New("math/rand cannot be seeded")})
	}
	rand.Seed(s)
}

// checkNeighbours verifies the neighbour lists of one point, and its serialised form.
func checkNeighbours(h *hnsw.Hnsw, pts [][]float32, id int, flush int) (int, error) {
	fr, err := h.Neighborhood(hnsw.Id(id))
	if err != nil {
		return 0, fmt.Errorf("point %d has no neighbour lists: %v", id, err)
	}
	total := 0
	for l := 0; l < fr.NumLevels(); l++ {
		hp, err := fr.GetFriendsAtLevel(l)
		if err != nil {
			return 0, fmt.Errorf("point %d level %d: %v", id, l, err)
		}
		ids, ds, err := drainMin(hp)
		if err != nil {
			return 0, err
		}
		seen := map[uint64]bool{}
		for i, f := range ids {
			if f >= uint64(len(pts)) {
				return 0, fmt.Errorf("point %d level %d lists point %d of %d", id, l, f, len(pts))
			}
			if f == uint64(id) {
				return 0, fmt.Errorf("point %d level %d lists itself", id, l)
			}
			if seen[f] {
				return 0, fmt.Errorf("point %d level %d lists %d twice", id, l, f)
			}
			seen[f] = true
			if w := trueDist(pts[id], pts[f]); !near(ds[i], w) {
				return 0, fmt.Errorf("point %d level %d lists %d at distance %v, true distance %v", id, l, f, ds[i], w)
			}
			total++
		}
	}
	// serialised neighbours
	hp, err := fr.GetFriendsAtLevel(0)
	if err != nil {
		return 0, err
	}
	before := hp.Len()
	buf, err := fr.Flush(flush)
	if err != nil {
		return 0, fmt.Errorf("flush of point %d: %v", id, err)
	}
	if len(buf) != 5*flush {
		return 0, fmt.Errorf("flush of %d neighbours gave %d bytes", flush, len(buf))
	}
	_, ds, err := drainMin(hp)
	if err != nil {
		return 0, err
	}
	if hp.Len() != before || len(ds) != before {
		return 0, fmt.Errorf("flushing changed the neighbour list of point %d", id)
	}
	seen := map[uint32]bool{}
	for i := 0; i < flush && i < len(ds); i++ {
		f := binary.BigEndian.Uint32(buf[i*5+1:])
		if int(f) >= len(pts) || seen[f] || int(f) == id {
			return 0, fmt.Errorf("flush of point %d: entry %d is point %d", id, i, f)
		}
		seen[f] = true
		if w := trueDist(pts[id], pts[f]); !near(w, ds[i]) {
			return 0, fmt.Errorf("flush of point %d: entry %d is point %d at %v, the %d-th closest neighbour is at %v", id, i, f, w, i, ds[i])
		}
	}
	return total, nil
}

func judgeAnn(c annCase, ctx *Ctx) error {
	seedRand(c.Seed)
	cp := func(p []float32) hnsw.Point { return append(hnsw.Point{}, p...) }
	h := hnsw.NewHnsw(c.Dim, c.EF, c.M, cp(c.Pts[0]))
	for i := 1; i < len(c.Pts); i++ {
		if g := h.GenerateId(); int(g) != i {
			return fmt.Errorf("the id of point %d is announced as %d", i, g)
		}
		id, err := h.InsertVector(cp(c.Pts[i]))
		if err != nil {
			return fmt.Errorf("insert point %d: %v", i, err)
		}
		if int(id) != i {
			return fmt.Errorf("point %d received id %d", i, id)
		}
		if c.Bad == i%10 {
			bad := make(hnsw.Point, c.Dim+1-2*(i%2))
			if _, err := h.InsertVector(bad); err == nil {
				return fmt.Errorf("a point of dimension %d was accepted in an index of dimension %d", len(bad), c.Dim)
			}
			ctx.Label("refused")
		}
		if i < 20 || i%7 == 0 {
			if _, err := checkNeighbours(h, c.Pts[:i+1], i, 8); err != nil {
				return fmt.Errorf("after inserting point %d: %w", i, err)
			}
		}
	}
	links := 0
	for i := range c.Pts {
		n, err := checkNeighbours(h, c.Pts, i, 1+(i+c.Bad)%12)
		if err != nil {
			return err
		}
		links += n
	}
	if _, err := h.Neighborhood(hnsw.Id(len(c.Pts))); err == nil {
		return fmt.Errorf("a point that was never inserted has neighbour lists")
	}
	for qi, q := range c.Qs {
		k := c.Ks[qi]
		res, err := h.KnnSearch(cp(q), k)
		if err != nil {
			return fmt.Errorf("search: %v", err)
		}
		ids, ds, err := drainMin(res)
		if err != nil {
			return err
		}
		if len(ids) > k || len(ids) == 0 {
			return fmt.Errorf("search for %d neighbours returned %d", k, len(ids))
		}
		seen := map[uint64]bool{}
		for i, id := range ids {
			if id >= uint64(len(c.Pts)) || seen[id] {
				return fmt.Errorf("search returned point %d (of %d, repeated %v)", id, len(c.Pts), seen[id])
			}
			seen[id] = true
			if w := trueDist(c.Pts[id], q); !near(w, ds[i]) {
				return fmt.Errorf("search returned point %d at %v, true distance %v", id, ds[i], w)
			}
		}
		var all []float64
		for _, p := range c.Pts {
			all = append(all, trueDist(p, q))
		}
		sort.Float64s(all)
		if len(c.Pts) <= c.M && len(c.Pts) <= c.EF {
			if len(ids) != min(k, len(c.Pts)) {
				return fmt.Errorf("search for %d among %d points (M %d, candidates %d) returned %d", k, len(c.Pts), c.M, c.EF, len(ids))
			}
			for i := range ids {
				if !near(ds[i], all[i]) {
					return fmt.Errorf("result %d is at %v, the %d-th nearest of %d points (M %d, candidates %d) is at %v", i, ds[i], i, len(c.Pts), c.M, c.EF, all[i])
				}
			}
			ctx.Label("exact-domain")
		}
		// the best result has no closer neighbour
		hood := func(id uint64) ([]uint64, error) {
			fr, err := h.Neighborhood(hnsw.Id(id))
			if err != nil {
				return nil, err
			}
			hp, err := fr.GetFriendsAtLevel(0)
			if err != nil {
				return nil, err
			}
			fids, _, err := drainMin(hp)
			return fids, err
		}
		fids, err := hood(ids[0])
		if err != nil {
			return err
		}
		for _, f := range fids {
			if w := trueDist(c.Pts[f], q); w < ds[0] && !near(w, ds[0]) {
				return fmt.Errorf("search returned point %d at %v as the nearest although its neighbour %d is at %v", ids[0], ds[0], f, w)
			}
		}
		// a search as wide as the candidate limit: nothing listed next to a result is left out
		// while a farther point is returned, and narrower searches give its nearest part
		full, err := h.KnnSearch(cp(q), max(c.EF, k))
		if err != nil {
			return fmt.Errorf("search: %v", err)
		}
		wids, wds, err := drainMin(full)
		if err != nil {
			return err
		}
		if len(wids) < len(ids) || k < c.EF && len(ids) != min(k, len(wids)) {
			return fmt.Errorf("searching for %d returned %d points, searching for %d returned %d (candidates %d)", k, len(ids), max(c.EF, k), len(wids), c.EF)
		}
		for i := range ids {
			if !near(ds[i], wds[i]) {
				return fmt.Errorf("result %d of the search for %d is at %v, of the search for %d at %v", i, k, ds[i], max(c.EF, k), wds[i])
			}
		}
		in := map[uint64]bool{}
		for _, id := range wids {
			in[id] = true
		}
		far := wds[len(wds)-1]
		for _, id := range wids {
			fids, err := hood(id)
			if err != nil {
				return err
			}
			for _, f := range fids {
				if in[f] {
					continue
				}
				if len(wids) < c.EF {
					return fmt.Errorf("searching for %d returned %d points (candidates %d) without %d, a listed neighbour of result %d", max(c.EF, k), len(wids), c.EF, f, id)
				}
				if w := trueDist(c.Pts[f], q); w < far && !near(w, far) {
					return fmt.Errorf("searching for %d returned a point at %v (candidates %d) but not point %d at %v, a listed neighbour of result %d", max(c.EF, k), far, c.EF, f, w, id)
				}
			}
			if len(fids) > 0 && len(wids) == c.EF {
				ctx.Label("full-width")
			}
		}
	}
	if refused := func() (r bool) {
		defer func() { r = recover() != nil }()
		hnsw.NewHnsw(c.Dim+1, c.EF, c.M, cp(c.Pts[0]))
		return
	}(); !refused {
		return fmt.Errorf("an index of dimension %d was created with a point of dimension %d", c.Dim+1, c.Dim)
	}
	if _, err := h.KnnSearch(make(hnsw.Point, c.Dim+1), 1); err == nil {
		return fmt.Errorf("a query of dimension %d was accepted in an index of dimension %d", c.Dim+1, c.Dim)
	}
	ctx.Labelf(len(c.Pts) > 40, "over-40-points")
	ctx.NT(len(c.Pts) > 2 && links > 0)
	return nil
}

// annSteady is a history of inserts and searches on one graph within the limits for exact answers.
type annSteady struct {
	Dim  int         `json:"dim"`
	EF   int         `json:"ef"`
	M    int         `json:"m"`
	Seed int64       `json:"seed"`
	Pts  [][]float32 `json:"pts"`
	Gaps []int       `json:"gaps"` // searches after each insert
}

func genSteady(t *rapid.T) annSteady {
	c := annSteady{Dim: rapid.IntRange(1, 4).Draw(t, "dim"), M: rapid.IntRange(2, 40).Draw(t, "m"), Seed: rapid.Int64Range(1, 1<<30).Draw(t, "seed")}
	n := rapid.IntRange(2, c.M).Draw(t, "n")
	c.EF = n + rapid.IntRange(0, 10).Draw(t, "ef")
	kind := rapid.IntRange(0, 1).Draw(t, "kind")
	for i := 0; i < n; i++ {
		c.Pts = append(c.Pts, genPoint(t, c.Dim, kind))
		c.Gaps = append(c.Gaps, []int{rapid.IntRange(0, 3).Draw(t, "gap"), rapid.IntRange(0, 60).Draw(t, "gap"), rapid.IntRange(120, 700).Draw(t, "gap")}[weighted(t, "gk", 4, 4, 1)])
	}
	return c
}

func judgeSteady(c annSteady, ctx *Ctx) error {
	seedRand(c.Seed)
	r := splitmix(uint64(c.Seed))
	cp := func(p []float32) hnsw.Point { return append(hnsw.Point{}, p...) }
	h := hnsw.NewHnsw(c.Dim, c.EF, c.M, cp(c.Pts[0]))
	searches := 0
	for n := 1; n <= len(c.Pts); n++ {
		if n > 1 {
			if id, err := h.InsertVector(cp(c.Pts[n-1])); err != nil || int(id) != n-1 {
				return fmt.Errorf("point %d received id %d (%v)", n-1, id, err)
			}
		}
		for g := 0; g <= c.Gaps[n-1]; g++ {
			q := cp(c.Pts[r.next()%uint64(len(c.Pts))])
			q[0] += float32(int(r.next()%5)-2) / 4
			k := n
			if r.next()%3 == 0 {
				k = 1 + int(r.next()%uint64(n+2))
			}
			res, err := h.KnnSearch(q, k)
			if err != nil {
				return fmt.Errorf("search %d: %v", searches, err)
			}
			searches++
			ids, ds, err := drainMin(res)
			if err != nil {
				return err
			}
			if len(ids) != min(k, n) {
				return fmt.Errorf("search %d for %d among %d points (M %d, candidates %d) returned %d", searches, k, n, c.M, c.EF, len(ids))
			}
			var all []float64
			for _, p := range c.Pts[:n] {
				all = append(all, trueDist(p, q))
			}
			sort.Float64s(all)
			seen := map[uint64]bool{}
			for i, id := range ids {
				if id >= uint64(n) || seen[id] {
					return fmt.Errorf("search %d returned point %d (of %d, repeated %v)", searches, id, n, seen[id])
				}
				seen[id] = true
				if !near(ds[i], trueDist(c.Pts[id], q)) || !near(ds[i], all[i]) {
					return fmt.Errorf("search %d: result %d is point %d at %v, the %d-th nearest of %d is at %v", searches, i, id, ds[i], i, n, all[i])
				}
			}
		}
	}
	for i := range c.Pts {
		if _, err := checkNeighbours(h, c.Pts, i, 8); err != nil {
			return err
		}
	}
	ctx.Labelf(searches > 256, "over-256-searches")
	ctx.NT(len(c.Pts) > 2 && searches > 20)
	return nil
}

// ---- C19

type vpmCase struct {
	Dim  int         `json:"dim"`
	EF   int         `json:"ef"`
	M    int         `json:"m"`
	Seed int64       `json:"seed"`
	Pts  [][]float32 `json:"pts"`
	Grow int         `json:"grow,omitempty"` // points the graph holds before the page manager is used
	Bits [][]uint32  `json:"bits,omitempty"` // bit patterns of the points, where some distances are no numbers
}

// judgeRecord checks a recorded neighbour list of point i against the points alone: the
// ids are distinct earlier points, closest first, and all of them are there when neither
// limit applies.
func judgeRecord(c vpmCase, at func(int) []float32, i int, buf []byte) error {
	if len(buf) != 40 {
		return fmt.Errorf("the neighbour list of vector %d has %d bytes", i, len(buf))
	}
	n := 8
	for n > 0 && bytes.Equal(buf[5*n-5:5*n], make([]byte, 5)) {
		n-- // padding, or point 0 at the end
	}
	dist := func(j int) float64 { return trueDist(at(i), at(j)) }
	var ids []int
	seen := map[int]bool{}
	for k := 0; k < n; k++ {
		id := int(binary.BigEndian.Uint32(buf[5*k+1:]))
		if id < 0 || id >= i || seen[id] {
			return fmt.Errorf("neighbour list %x of vector %d: entry %d is point %d", buf, i, k, id)
		}
		seen[id] = true
		ids = append(ids, id)
		if k > 0 && dist(id) < dist(ids[k-1]) && !near(dist(id), dist(ids[k-1])) {
			return fmt.Errorf("neighbour list %x of vector %d is not closest first: %d (%v) after %d (%v)", buf, i, id, dist(id), ids[k-1], dist(ids[k-1]))
		}
	}
	if i > 0 && n < 8 && !seen[0] && (n == 0 || dist(0) >= dist(ids[n-1]) || near(dist(0), dist(ids[n-1]))) {
		ids = append(ids, 0) // not distinguishable from padding
	}
	if i <= c.M && i <= c.EF && c.Grow == 0 {
		// every earlier point is a candidate and may be a neighbour
		var want, have []float64
		for j := 0; j < i; j++ {
			want = append(want, dist(j))
		}
		sort.Slice(want, func(a, b int) bool { return want[a] < want[b] })
		for _, id := range ids {
			have = append(have, dist(id))
		}
		if want = want[:min(8, len(want))]; len(have) < len(want) {
			return fmt.Errorf("neighbour list %x of vector %d has %d points, want %d", buf, i, len(have), len(want))
		}
		for k := range want {
			if !near(have[k], want[k]) {
				return fmt.Errorf("neighbour list %x of vector %d: distances %v, want %v", buf, i, have, want)
			}
		}
	}
	return nil
}

func judgeVPM(c vpmCase, ctx *Ctx) error {
	seedRand(c.Seed)
	odd := len(c.Bits) > 0
	for _, b := range c.Bits {
		p := make([]float32, len(b))
		for i := range b {
			p[i] = math.Float32frombits(b[i])
		}
		c.Pts = append(c.Pts, p)
	}
	st := newMem(nil)
	pf, err := pagefile.NewPageFile(st)
	if err != nil {
		return err
	}
	head, err := linkedpage.NewMultiBPTree(pf, 0)
	if err != nil {
		return err
	}
	s1, err := head.AddNext()
	if err != nil {
		return err
	}
	s2, err := s1.AddNext()
	if err != nil {
		return err
	}
	cp := func(p []float32) hnsw.Point { return append(hnsw.Point{}, p...) }
	bt := s1.BTree(&btree.BTree{VectorDim: uint64(c.Dim)})
	bp := s2.BPTree(&bptree.BPTree{Width: 41})
	h := hnsw.NewHnsw(c.Dim, c.EF, c.M, cp(c.Pts[0]))
	if c.Grow > 0 {
		pts := [][]float32{c.Pts[0]}
		for k := 1; k < c.Grow; k++ {
			p := make([]float32, c.Dim)
			p[0] = float32(k)
			pts = append(pts, p)
			if _, err := h.InsertVector(cp(p)); err != nil {
				return err
			}
		}
		for _, p := range c.Pts[1:] {
			q := cp(p)
			q[0] += float32(c.Grow)
			pts = append(pts, q)
		}
		c.Pts = pts
	}
	first := max(1, c.Grow)
	vp := vectorpage.NewVectorPageManager(bt, bp, h)
	var lists [][]byte
	for i := first; i < len(c.Pts); i++ {
		if err := vp.AddNode(cp(c.Pts[i])); err != nil {
			return fmt.Errorf("add vector %d: %v", i, err)
		}
		if int(h.GenerateId()) != i+1 {
			return fmt.Errorf("after adding vector %d the next id is %d", i, h.GenerateId())
		}
		fr, err := h.Neighborhood(hnsw.Id(i))
		if err != nil {
			return fmt.Errorf("vector %d has no neighbour list: %v", i, err)
		}
		buf, err := fr.Flush(8)
		if err != nil {
			return err
		}
		if odd {
			// which of the others are the closest is not defined
		} else if _, err := checkNeighbours(h, c.Pts[:i+1], i, 8); err != nil {
			return fmt.Errorf("after adding vector %d: %w", i, err)
		} else if err := judgeRecord(c, func(j int) []float32 { return c.Pts[j] }, i, buf); err != nil {
			return err
		}
		lists = append(lists, buf)
		if ok, err := bp.Contains(pointer.ReferencedValue{Value: buf}); err != nil || !ok {
			return fmt.Errorf("the neighbour list of vector %d is not recorded (%v)", i, err)
		}
	}
	for i := first; i < len(c.Pts); i++ {
		k, v, err := bt.Find(pointer.ReferencedId{Value: hnsw.Id(i)})
		if err != nil || int(k.Value) != i {
			return fmt.Errorf("vector %d is not stored under its id: %v %v", i, k, err)
		}
		for j := range c.Pts[i] {
			if math.Float32bits(v[j]) != math.Float32bits(c.Pts[i][j]) {
				return fmt.Errorf("vector %d is stored as %v, added as %v", i, v, c.Pts[i])
			}
		}
	}
	// the neighbour index holds exactly the recorded lists
	it, err := bp.Iter(pointer.ReferencedValue{})
	if err != nil {
		return err
	}
	var got [][]byte
	for it.Next() {
		got = append(got, append([]byte{}, it.Key().Value...))
	}
	if it.Err() != nil {
		return it.Err()
	}
	sort.Slice(got, func(a, b int) bool { return bytes.Compare(got[a], got[b]) < 0 })
	sort.Slice(lists, func(a, b int) bool { return bytes.Compare(lists[a], lists[b]) < 0 })
	if len(got) != len(lists) {
		return fmt.Errorf("neighbour index has %d lists, %d vectors were added", len(got), len(lists))
	}
	same := 0
	for i := range got {
		if !bytes.Equal(got[i], lists[i]) {
			return fmt.Errorf("neighbour index holds %x, want %x", got[i], lists[i])
		}
		if i > 0 && bytes.Equal(got[i], got[i-1]) {
			same++
		}
	}
	ctx.Labelf(same > 0, "equal-lists")
	ctx.Labelf(len(c.Pts) > 40, "over-40-points")
	ctx.NT(len(c.Pts) > 3)
	return nil
}

func init() {
	register("C16", "insertion histories (single and bulk, drawn id patterns and bit patterns, dimensions 1-495), refused second inserts, absent lookups and reopens, compared bit for bit with a map; non-trivial = the tree split",
		sub("model", 2400, 40000, genVecCase, judgeVec),
		finding("large-dimension", func(ctx *Ctx) error {
			c := vecCase{Dim: 600}
			for i := 0; i < 4; i++ {
				c.Ops = append(c.Ops, vecOp{Kind: "ins", ID: uint64(i), Bits: make([]uint32, 600)})
			}
			return judgeVec(c, ctx)
		}))
	register("C17", "sequences of insert, update, pop-min, pop-max, bulk and clone over up to four heaps related by cloning, compared with maps after every operation and drained from both ends; non-trivial = more than three items and at least one removal",
		sub("model", 60000, 1000000, genHeapCase, judgeHeap),
		sub("large", 160, 3000, genLargeHeap, judgeHeap),
		sub("huge", 120, 2000, genHugeHeap, judgeHugeHeap))
	register("C18", "random point sets (grids with ties and duplicates, coarse and fine coordinates), drawn dimensions, connection and candidate limits and level seeds, queries at and between points, against brute force; non-trivial = at least three linked points",
		sub("search", 20000, 300000, genAnn(40), judgeAnn),
		sub("large", 600, 12000, genAnn(250), judgeAnn),
		sub("steady", 400, 8000, genSteady, judgeSteady))
	register("C19", "sequences of vectors (with duplicates) added through the page manager, vector store and neighbour index compared with the added vectors and their neighbour lists; non-trivial = more than three points",
		sub("model", 6000, 100000, func(t *rapid.T) vpmCase {
			c := vpmCase{Dim: rapid.IntRange(1, 6).Draw(t, "dim"), EF: rapid.IntRange(1, 40).Draw(t, "ef"), M: rapid.IntRange(2, 16).Draw(t, "m"), Seed: rapid.Int64Range(1, 1<<30).Draw(t, "seed")}
			kind := rapid.IntRange(0, 2).Draw(t, "kind")
			for n := drawSize(t, 120) + 1; n > 0; n-- {
				c.Pts = append(c.Pts, genPoint(t, c.Dim, kind))
			}
			return c
		}, judgeVPM),
		// any bit patterns
		sub("bits", 1500, 20000, func(t *rapid.T) vpmCase {
			c := vpmCase{Dim: rapid.IntRange(1, 4).Draw(t, "dim"), EF: rapid.IntRange(1, 40).Draw(t, "ef"), M: rapid.IntRange(2, 16).Draw(t, "m"), Seed: rapid.Int64Range(1, 1<<30).Draw(t, "seed")}
			for n := drawSize(t, 60) + 1; n > 0; n-- {
				p := make([]uint32, c.Dim)
				for i := range p {
					switch weighted(t, "bk", 4, 3, 2) {
					case 0:
						p[i] = math.Float32bits(float32(rapid.IntRange(-4, 4).Draw(t, "x")))
					case 1:
						p[i] = rapid.SampledFrom([]uint32{0, 1 << 31, 1, 0x807fffff, 0x00800000, 0x7f7fffff, 0xff7fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0xffc01234, 0x7fffffff}).Draw(t, "b")
					default:
						p[i] = rapid.Uint32().Draw(t, "r")
					}
				}
				c.Bits = append(c.Bits, p)
			}
			return c
		}, judgeVPM),
		// ids that need the third byte
		sub("ids", 1, 8, func(t *rapid.T) vpmCase {
			c := vpmCase{Dim: 1, EF: rapid.IntRange(4, 8).Draw(t, "ef"), M: rapid.IntRange(3, 8).Draw(t, "m"), Seed: rapid.Int64Range(1, 1<<30).Draw(t, "seed"), Grow: 65536 + rapid.IntRange(10, 100).Draw(t, "grow")}
			for n := 6; n > 0; n-- {
				c.Pts = append(c.Pts, []float32{float32(rapid.IntRange(0, 30).Draw(t, "x"))})
			}
			return c
		}, judgeVPM))
}
