package main

// C11, C27, C28, C30-C33.

import (
	"bytes"
	"compress/gzip"
	"embed"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/btree"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/pkg/hnsw"
	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/ngram"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
	"github.com/kevmo314/appendable/pkg/vectorpage"
	"pgregory.net/rapid"
)

// ---- C11 ----

type tokCase struct {
	Text  string `json:"text"`
	N     int    `json:"n"`
	Noise int    `json:"noise"`
}

func genTok(t *rapid.T) tokCase {
	r := rapidRng{t}
	c := tokCase{N: 1 + weighted(t, "n", 3, 3, 3, 1, 1), Noise: rapid.IntRange(0, 3).Draw(t, "noise")}
	switch weighted(t, "kind", 12, 12, 8, 4, 1) {
	case 4: // a long text
		c.Text = strings.Repeat(genText(r)+" x", 1+r.n(2000))
	case 0:
		c.Text = genText(r)
	case 1: // ASCII
		var b strings.Builder
		for i, k := 0, r.n(40); i < k; i++ {
			b.WriteByte("abcXYZ019 \t\n\v\f\r.-_'\"\x00\x1f\x7f@[`{/:"[r.n(29)])
		}
		c.Text = b.String()
	case 2:
		c.Text = rapid.String().Draw(t, "s")
	case 3:
		c.Text = strings.Repeat(genText(r)+" ", 1+r.n(20))
	}
	c.Text = strings.ToValidUTF8(c.Text, "?")
	return c
}

func judgeTok(c tokCase, ctx *Ctx) error {
	got := ngram.BuildNgram(c.Text, c.N)
	want := modelTokens(c.Text, c.N)
	ascii := isASCII(c.Text)
	ctx.Labelf(ascii, "ascii")
	ctx.Labelf(!ascii, "non-ascii")
	ctx.Labelf(len(want) == 0, "no-tokens")
	ctx.NT(len(want) >= 2)
	if len(got) != len(want) {
		return fmt.Errorf("%d tokens of length %d for %q, want %d", len(got), c.N, c.Text, len(want))
	}
	for i, g := range got {
		if g.Word != want[i].w {
			return fmt.Errorf("token %d of %q is %q, want %q", i, c.Text, g.Word, want[i].w)
		}
		if ascii {
			o, l := int(g.Offset), int(g.Length)
			if o != want[i].first || l != want[i].end-want[i].first {
				return fmt.Errorf("token %d (%q) of %q is at %d+%d, want %d+%d", i, g.Word, c.Text, o, l, want[i].first, want[i].end-want[i].first)
			}
			ctx.Labelf(l > c.N, "spans-punctuation")
		}
	}
	// shuffling
	a := ngram.Shuffle(append([]ngram.Token{}, got...))
	for i := 0; i < c.Noise; i++ {
		rand.Int()
		ngram.Shuffle(append([]ngram.Token{{Word: "x"}}, got...))
	}
	b := ngram.Shuffle(append([]ngram.Token{}, got...))
	if len(a) != len(b) || len(a) > 0 && !reflect.DeepEqual(a, b) {
		return fmt.Errorf("shuffling the same %d tokens twice gives two orders", len(got))
	}
	count := map[ngram.Token]int{}
	for _, x := range got {
		count[x]++
	}
	for _, x := range a {
		count[x]--
	}
	for x, n := range count {
		if n != 0 {
			return fmt.Errorf("after shuffling token %v occurs %d times less", x, n)
		}
	}
	if len(a) != len(got) {
		return errors.New("shuffling changes the number of tokens")
	}
	return nil
}

// ---- C30 ----

type costCase struct {
	Doc  docCase  `json:"doc"`
	Rows []string `json:"rows"`
	Dead bool     `json:"dead"` // overwrite the part of the data that is already indexed
}

func genCost(t *rapid.T) costCase {
	c := costCase{Doc: genDocStyle(t)}
	if len(c.Doc.Names) > 6 {
		c.Doc.Names = c.Doc.Names[:6]
	}
	r := rapidRng{t}
	c.Dead = rapid.IntRange(0, 3).Draw(t, "dead") == 0
	for i, k := 0, rapid.IntRange(1, 2).Draw(t, "nbulk"); i < k; i++ {
		c.Doc.Items = append(c.Doc.Items, docItem{Bulk: drawSize(t, 1500), Seed: rapid.Uint64().Draw(t, "seed"), Style: rapid.IntRange(0, 3).Draw(t, "style")})
	}
	if rapid.Bool().Draw(t, "search") {
		c.Doc.Search = []string{c.Doc.Names[0]}
	}
	st := c.Doc.style(0)
	for i, k := 0, rapid.IntRange(1, 6).Draw(t, "nrows"); i < k; i++ {
		if c.Dead { // numbers, booleans and nulls only: keys are stored inline
			c.Rows = append(c.Rows, fmt.Sprintf(`{"a":%s,"b":%s}`, genNum(r), []string{"true", "false", "null", "1"}[r.n(4)]))
		} else {
			c.Rows = append(c.Rows, genRow(r, &st))
		}
	}
	return c
}

// treeDepths gives for each index slot the number of pages from root to leaf.
func treeDepth(raw []byte, s *rSlot, csv bool) int {
	d := 0
	w := s.width
	if csv {
		w = 0
	}
	for off := s.root.O; off != 0; d++ {
		p, err := decodeBPPage(raw, off, w)
		if err != nil || p.leaf || d > 50 {
			return d + 1
		}
		off = p.children[0]
	}
	return d
}

func judgeCost(c costCase, ctx *Ctx) error {
	if c.Dead {
		c.Doc.Search = nil
		for i := range c.Doc.Items {
			c.Doc.Items[i].Style = 2
		}
		c.Doc.Names = []string{"a"}
	}
	base := c.Doc.bytes()
	if c.Dead { // keep referenced strings out of the trees
		base = bytes.ReplaceAll(bytes.ReplaceAll(base, []byte(`"dup"`), []byte("12")), []byte(`"x"`), []byte("13"))
	}
	data := append([]byte{}, base...)
	for _, r := range c.Rows {
		data = append(data, r+"\n"...)
	}
	if mustModel(data, c.Doc.Search).collision {
		ctx.Label("skipped-collision")
		return nil
	}
	mem := newMem(nil)
	f, err := openJSONL(mem, c.Doc.Search)
	if err != nil {
		return err
	}
	if err := f.Synchronize(base); err != nil {
		return err
	}
	pos := len(base)
	twin := newMem(mem.buf)
	for i, row := range c.Rows {
		r, err := readIndex(mem.buf, false)
		if err != nil {
			return err
		}
		before := mustModel(data[:pos], c.Doc.Search)
		pos += len(row) + 1
		after := mustModel(data[:pos], c.Doc.Search)
		depth := 1
		for _, s := range r.slots {
			depth = max(depth, treeDepth(mem.buf, s, false))
		}
		ctx.Labelf(depth >= 2, "depth>=2")
		ctx.Labelf(depth >= 3, "depth>=3")
		ctx.Labelf(len(mem.buf) > 100*4096, "pages>100")
		ctx.NT(len(mem.buf) > 10*4096)
		nv := 0
		for _, x := range after.indexes {
			n := len(x.entries)
			if b := before.by[fmt.Sprintf("%d/%s", x.typ, x.name)]; b != nil {
				n -= len(b.entries)
			}
			nv += n
		}
		occs := int64(after.values - before.values)
		slots := int64(len(after.indexes))
		fresh := slots - int64(len(before.indexes))
		v, d := int64(nv), int64(depth)+1
		mem.resetCounters()
		if err := f.Synchronize(data[:pos:pos]); err != nil {
			return err
		}
		maxW := v*(2*d+2)*4096 + (occs*4+v)*300 + fresh*3*4096 + 4096
		maxR := v*(d+1)*4096 + (occs*4+1)*(slots+2)*600 + fresh*3*4096 + 2*4096
		if mem.bytesWritten > maxW {
			return fmt.Errorf("appended row %d (%d values, trees of depth %d, %d indexes, index of %d bytes) wrote %d bytes, bound %d", i, v, depth, slots, len(mem.buf), mem.bytesWritten, maxW)
		}
		if mem.bytesRead > maxR {
			return fmt.Errorf("appended row %d (%d values, trees of depth %d, %d indexes, index of %d bytes) read %d bytes, bound %d", i, v, depth, slots, len(mem.buf), mem.bytesRead, maxR)
		}
		mem.resetCounters()
		if err := f.Synchronize(data[:pos:pos]); err != nil {
			return err
		}
		if ops := mem.reads + mem.writes + mem.seeks; ops > 64 || mem.bytesRead > 3*4096 || mem.bytesWritten > 4096 {
			return fmt.Errorf("synchronizing without new data made %d storage calls, read %d and wrote %d bytes (index of %d bytes)", ops, mem.bytesRead, mem.bytesWritten, len(mem.buf))
		}
	}
	if c.Dead {
		// rows that are indexed already are not read again
		ctx.Label("indexed-part-overwritten")
		g, err := openJSONL(twin, nil)
		if err != nil {
			return err
		}
		dead := append([]byte{}, data...)
		for i := range base {
			dead[i] = 0
		}
		p := len(base)
		for _, row := range c.Rows {
			p += len(row) + 1
			if err := g.Synchronize(dead[:p:p]); err != nil {
				return fmt.Errorf("new rows cannot be indexed without reading the rows that are already indexed: %w", err)
			}
		}
		if !bytes.Equal(twin.buf, mem.buf) {
			return errors.New("indexing new rows depends on reading the rows that are already indexed")
		}
	}
	// linear size
	r, err := readIndex(mem.buf, false)
	if err != nil {
		return err
	}
	bound := 3 + len(r.slots)/15
	for _, s := range r.slots {
		entry := max(s.width-1, 0) + 16
		minLeaf := 4092/entry/2 - 1
		leaves := len(s.entries)/minLeaf + 1
		bound += leaves + leaves/20 + 3
	}
	if r.pages > bound {
		return fmt.Errorf("the index of %d rows has %d pages, bound %d", len(mustModel(data, nil).rows), r.pages, bound)
	}
	return nil
}

// ---- C31 ----

type faultCase struct {
	Doc   docCase  `json:"doc"`
	Op    string   `json:"op"`
	Row   string   `json:"row"`
	Pick  int      `json:"pick"`
	Mask  int      `json:"mask"` // which kind of call fails: 1 read, 2 write, 4 seek
	Start int      `json:"start"`
	Dim   int      `json:"dim"`
	N     int      `json:"n"`
	CSV   *csvCase `json:"csv,omitempty"`
}

var faultOps = []string{"create", "open", "sync", "find", "iter", "insert", "page", "slots", "vector-insert", "vector-find", "tree-find", "tree-iter", "tree-insert",
	"sync-csv", "sync-search", "index-names", "index-create", "vector-manager"}

func genFault(t *rapid.T) faultCase {
	c := faultCase{Op: faultOps[weighted(t, "op", 1, 2, 4, 3, 3, 4, 2, 2, 2, 2, 3, 4, 4, 4, 2, 2, 2, 2)]}
	c.Doc = genDocStyle(t)
	if len(c.Doc.Names) > 20 {
		c.Doc.Names = c.Doc.Names[:20]
	}
	r := rapidRng{t}
	st := c.Doc.style(0)
	for i, k := 0, rapid.IntRange(0, 4).Draw(t, "rows"); i < k; i++ {
		c.Doc.Items = append(c.Doc.Items, docItem{Row: genRow(r, &st)})
	}
	if rapid.Bool().Draw(t, "big") {
		c.Doc.Items = append(c.Doc.Items, docItem{Bulk: drawSize(t, 500), Seed: rapid.Uint64().Draw(t, "seed"), Style: rapid.IntRange(0, 3).Draw(t, "style")})
	}
	c.Row = genRow(r, &st)
	c.Pick = rapid.IntRange(0, 1<<16).Draw(t, "pick")
	c.Mask = []int{7, 1, 2, 4}[weighted(t, "mask", 3, 3, 1, 1)]
	c.Start = rapid.IntRange(0, 7).Draw(t, "start")
	if c.Op == "sync-csv" {
		d := genCSV(docOpts{rows: 8, bulk: 400})(t)
		c.CSV = &d
	}
	if c.Op == "sync-search" {
		for i, k := 0, rapid.IntRange(1, 2).Draw(t, "nsearch"); i < k; i++ {
			c.Doc.Search = append(c.Doc.Search, c.Doc.Names[r.n(len(c.Doc.Names))])
		}
	}
	c.Dim = []int{1, 2, 16, 128, 300}[r.n(5)]
	c.N = drawSize(t, 200)
	if strings.HasPrefix(c.Op, "tree") {
		// few keys per page, so that a few entries make several levels
		c.Dim = []int{1, 8, 100, 400, 1000}[r.n(5)]
		c.N = drawSize(t, 300)
	}
	return c
}

func judgeFault(c faultCase, ctx *Ctx) error {
	data := append(c.Doc.bytes(), c.Row+"\n"...)
	n := len(data) - len(c.Row) - 1
	src := &source{search: c.Doc.Search}
	if c.CSV != nil {
		src.csv, data = true, c.CSV.bytes()
		n = cutsOf(data, []histStep{{Line: c.Pick % 1001}})[0]
	}
	src.data = data
	if src.collision() {
		ctx.Label("skipped-collision")
		return nil
	}
	base := newMem(nil)
	var m *mFile
	vector := strings.HasPrefix(c.Op, "vector")
	vecTree := func(mem *memFile) (*btree.BTree, error) {
		pf, err := pagefile.NewPageFile(mem)
		if err != nil {
			return nil, err
		}
		head, err := linkedpage.NewMultiBPTree(pf, 0)
		if err != nil {
			return nil, err
		}
		s, err := head.Next()
		if errors.Is(err, io.EOF) {
			s, err = head.AddNext()
		}
		if err != nil {
			return nil, err
		}
		return s.BTree(&btree.BTree{VectorDim: uint64(c.Dim)}), nil
	}
	// a tree of c.N entries with values of c.Dim bytes; every value occurs three times
	direct := strings.HasPrefix(c.Op, "tree")
	plainTree := func(mem *memFile) (*bptree.BPTree, error) {
		pf, err := pagefile.NewPageFile(mem)
		if err != nil {
			return nil, err
		}
		head, err := linkedpage.NewMultiBPTree(pf, 0)
		if err != nil {
			return nil, err
		}
		s, err := head.Next()
		if errors.Is(err, io.EOF) {
			s, err = head.AddNext()
		}
		if err != nil {
			return nil, err
		}
		return s.BPTree(&bptree.BPTree{Width: uint16(c.Dim + 1)}), nil
	}
	// the entries in key order are 0..n-1; they are inserted in another order
	nt := min(c.N, 3000)
	tkey := func(rank int) pointer.ReferencedValue {
		v := make([]byte, c.Dim)
		x := rank / 3
		for k := min(c.Dim, 2) - 1; k >= 0; k-- {
			v[k] = byte(x)
			x >>= 8
		}
		if c.Dim == 1 {
			v[0] = byte(min(rank/3, 255))
		}
		return pointer.ReferencedValue{Value: v, DataPointer: pointer.MemoryPointer{Offset: uint64(rank) * 2, Length: 1}}
	}
	tptr := func(rank int) pointer.MemoryPointer {
		return pointer.MemoryPointer{Offset: uint64(rank) * 5, Length: 7}
	}
	vec := func(i int) []float32 {
		v := make([]float32, c.Dim)
		for k := range v {
			v[k] = float32(i*7 + k)
		}
		return v
	}
	vid := func(i int) pointer.ReferencedId {
		return pointer.ReferencedId{Value: hnsw.Id(uint64(i) * 2654435761 % 100003), DataPointer: pointer.MemoryPointer{Offset: uint64(i), Length: 1}}
	}
	nv := min(c.N, 200)
	switch {
	case vector:
		t, err := vecTree(base)
		if err != nil {
			return err
		}
		for i := 0; i < nv; i++ {
			if err := t.Insert(vid(i), vec(i)); err != nil {
				return fmt.Errorf("vector insert: %w", err)
			}
		}
	case c.Op == "create":
	case direct:
		t, err := plainTree(base)
		if err != nil {
			return err
		}
		stride := []int{1, 7, 11, 13}[c.Start%4]
		for nt%stride == 0 && stride > 1 {
			stride++
		}
		for gcd(nt, stride) != 1 {
			stride++
		}
		for i := 0; i < nt; i++ {
			r := i * stride % nt
			if c.Pick&1 == 1 {
				r = nt - 1 - r
			}
			if err := t.Insert(tkey(r), tptr(r)); err != nil {
				return fmt.Errorf("insert: %w", err)
			}
		}
	default:
		f, err := src.open(base)
		if err != nil {
			return err
		}
		if err := f.Synchronize(data[:n:n]); err != nil {
			return err
		}
	}
	m = src.model(n)
	state := base.snapshot()
	ctx.Label(c.Op)

	// prepare gives the operation on a fresh copy of the state, opened without faults.
	prepare := func(mem *memFile) (run func() error, readOnly bool, err error) {
		var f *appendable.IndexFile
		var slots []libSlot
		if !vector && !direct && c.Op != "create" && c.Op != "open" && c.Op != "page" {
			if f, err = src.open(mem); err != nil {
				return
			}
			if slots, err = libSlots(f); err != nil {
				return
			}
		}
		// slots with a tree
		var trees []libSlot
		for _, s := range slots {
			if x := m.by[fmt.Sprintf("%d/%s", s.meta.FieldType, s.meta.FieldName)]; x != nil && len(x.entries) > 0 {
				trees = append(trees, s)
			}
		}
		sort.SliceStable(trees, func(i, j int) bool { // large trees first
			return len(m.by[fmt.Sprintf("%d/%s", trees[i].meta.FieldType, trees[i].meta.FieldName)].entries) > len(m.by[fmt.Sprintf("%d/%s", trees[j].meta.FieldType, trees[j].meta.FieldName)].entries)
		})
		pick := 0
		if len(trees) > 0 && c.Pick%3 == 0 {
			pick = c.Pick % len(trees)
		}
		tree := func() (*bptree.BPTree, *mIndex) {
			s := trees[pick]
			return s.page.BPTree(&bptree.BPTree{Data: data[:n:n], DataParser: handlers.JSONLHandler{}, Width: s.meta.Width}), m.by[fmt.Sprintf("%d/%s", s.meta.FieldType, s.meta.FieldName)]
		}
		switch c.Op {
		case "create", "open":
			return func() error { _, err := openJSONL(mem, nil); return err }, c.Op == "open", nil
		case "sync", "sync-csv", "sync-search":
			return func() error { return f.Synchronize(data) }, false, nil
		case "index-names":
			seen := map[string]bool{}
			for _, x := range m.indexes {
				seen[x.name] = true
			}
			return func() error {
				names, err := f.IndexFieldNames()
				if err != nil {
					return err
				}
				empty, err := f.IsEmpty()
				if err != nil {
					return err
				}
				fm, err := f.Metadata()
				if err != nil {
					return err
				}
				if len(names) != len(seen) || empty != (len(slots) == 0) || fm.ReadOffset != m.readOffset {
					return errSilent
				}
				return nil
			}, true, nil
		case "index-create":
			name := []string{"created anew", "created anew", c.Doc.Names[c.Pick%len(c.Doc.Names)]}[c.Pick%3]
			return func() error {
				p, im, err := f.FindOrCreateIndex(name, appendable.FieldTypeVector)
				if err != nil {
					return err
				}
				if im.FieldName != name || im.FieldType != appendable.FieldTypeVector {
					return errSilent
				}
				im.TotalFieldValueLength = 1234567
				if err := p.MarshalMetadata(im); err != nil {
					return err
				}
				_, again, err := f.FindOrCreateIndex(name, appendable.FieldTypeVector)
				if err != nil {
					return err
				}
				if again.TotalFieldValueLength != 1234567 {
					return errSilent
				}
				return nil
			}, false, nil
		case "find":
			if len(trees) == 0 {
				return nil, true, nil
			}
			t, x := tree()
			e := x.entries[c.Pick%len(x.entries)]
			return func() error {
				k, p, err := t.Find(pointer.ReferencedValue{Value: e.val})
				if err != nil {
					return err
				}
				if !bytes.Equal(k.Value, e.val) || p.Length == 0 {
					return errSilent
				}
				ok, err := t.Contains(pointer.ReferencedValue{Value: e.val})
				if err != nil {
					return err
				}
				if !ok {
					return errSilent
				}
				return nil
			}, true, nil
		case "iter":
			if len(trees) == 0 {
				return nil, true, nil
			}
			t, x := tree()
			e := x.entries[c.Pick%len(x.entries)]
			below := 0
			for _, y := range x.entries {
				if bytes.Compare(y.val, e.val) < 0 {
					below++
				}
			}
			return func() error {
				for _, fwd := range []bool{true, false} {
					it, err := t.Iter(pointer.ReferencedValue{Value: e.val})
					if err != nil {
						return err
					}
					got := 0
					for {
						ok := false
						if fwd {
							ok = it.Next()
						} else {
							ok = it.Prev()
						}
						if !ok {
							break
						}
						got++
					}
					if it.Err() != nil {
						return it.Err()
					}
					want := below
					if fwd {
						want = len(x.entries) - below
					}
					if got != want {
						return errSilent
					}
				}
				return nil
			}, true, nil
		case "insert":
			var inline []libSlot
			for _, s := range trees {
				if s.meta.Width > 2 {
					inline = append(inline, s)
				}
			}
			if len(inline) == 0 {
				return nil, false, nil
			}
			s := inline[0]
			t := s.page.BPTree(&bptree.BPTree{Width: s.meta.Width})
			v := be(uint64(c.Pick)<<47, int(s.meta.Width)-1)
			return func() error {
				return t.Insert(pointer.ReferencedValue{Value: v, DataPointer: pointer.MemoryPointer{Offset: 1 << 40, Length: 3}}, pointer.MemoryPointer{Offset: 1, Length: 1})
			}, false, nil
		case "page":
			pf, err := pagefile.NewPageFile(mem)
			if err != nil {
				return nil, false, err
			}
			return func() error {
				o, err := pf.NewPage([]byte("x"))
				if err != nil {
					return err
				}
				if err := pf.FreePage(o); err != nil {
					return err
				}
				_, err = pf.NewPage(nil)
				return err
			}, false, nil
		case "slots":
			head, err := f.Indexes()
			if errors.Is(err, io.EOF) {
				return nil, false, nil
			}
			if err != nil {
				return nil, false, err
			}
			return func() error {
				all, err := head.Collect()
				if err != nil {
					return err
				}
				if len(all) != len(slots) {
					return errSilent
				}
				last := all[len(all)-1]
				if _, err := last.Root(); err != nil {
					return err
				}
				nx, err := last.AddNext()
				if err != nil {
					return err
				}
				if err := nx.SetMetadata([]byte("0123456")); err != nil {
					return err
				}
				if err := nx.SetRoot(pointer.MemoryPointer{}); err != nil {
					return err
				}
				_, err = nx.Metadata()
				return err
			}, false, nil
		case "tree-find", "tree-iter", "tree-insert":
			t, err := plainTree(mem)
			if err != nil {
				return nil, false, err
			}
			r := c.Pick % nt
			switch c.Op {
			case "tree-find":
				return func() error {
					k, p, err := t.Find(tkey(r))
					if err != nil {
						return err
					}
					if p != tptr(r) || k.DataPointer != tkey(r).DataPointer {
						return errSilent
					}
					ok, err := t.Contains(tkey(r))
					if err != nil {
						return err
					}
					if !ok {
						return errSilent
					}
					return nil
				}, true, nil
			case "tree-iter":
				return func() error {
					for _, fwd := range []bool{true, false} {
						it, err := t.Iter(tkey(r))
						if err != nil {
							return err
						}
						at, end := r, nt
						step := it.Next
						if !fwd {
							at, end, step = r-1, -1, it.Prev
						}
						for step() {
							if at == end || it.Pointer() != tptr(at) {
								return errSilent
							}
							if fwd {
								at++
							} else {
								at--
							}
						}
						if it.Err() != nil {
							return it.Err()
						}
						if at != end {
							return errSilent
						}
					}
					return nil
				}, true, nil
			}
			k := tkey(r)
			k.DataPointer.Offset++
			return func() error { return t.Insert(k, pointer.MemoryPointer{Offset: 1 << 30, Length: 9}) }, false, nil
		case "vector-insert":
			t, err := vecTree(mem)
			if err != nil {
				return nil, false, err
			}
			return func() error { return t.Insert(vid(nv), vec(nv)) }, false, nil
		case "vector-manager":
			// the graph is in memory: it is built again, with its trees in new slots
			pf, err := pagefile.NewPageFile(mem)
			if err != nil {
				return nil, false, err
			}
			s, err := linkedpage.NewMultiBPTree(pf, 0)
			if err != nil {
				return nil, false, err
			}
			var pages [2]*linkedpage.LinkedPage
			for i := range pages {
				for {
					nx, err := s.Next()
					if errors.Is(err, io.EOF) {
						break
					}
					if err != nil {
						return nil, false, err
					}
					s = nx
				}
				if pages[i], err = s.AddNext(); err != nil {
					return nil, false, err
				}
			}
			g := hnsw.NewHnsw(c.Dim, 20, 8, hnsw.Point(vec(0)))
			vp := vectorpage.NewVectorPageManager(pages[0].BTree(&btree.BTree{VectorDim: uint64(c.Dim)}), pages[1].BPTree(&bptree.BPTree{Width: 41}), g)
			for i := 1; i <= min(nv, 12); i++ {
				if err := vp.AddNode(hnsw.Point(vec(i))); err != nil {
					return nil, false, err
				}
			}
			return func() error { return vp.AddNode(hnsw.Point(vec(20))) }, false, nil
		case "vector-find":
			if nv == 0 {
				return nil, true, nil
			}
			t, err := vecTree(mem)
			if err != nil {
				return nil, false, err
			}
			i := c.Pick % nv
			return func() error {
				id, v, err := t.Find(vid(i))
				if err != nil {
					return err
				}
				if !reflect.DeepEqual(append([]float32{}, v...), vec(i)) || id.DataPointer.Offset != uint64(i) {
					return errSilent
				}
				return nil
			}, true, nil
		}
		panic(harnessError{errors.New("unknown operation " + c.Op)})
	}

	// without a fault
	mem := newMem(state)
	run, readOnly, err := prepare(mem)
	if err != nil {
		return err
	}
	if run == nil {
		ctx.Label("nothing-to-do")
		return nil
	}
	mem.resetCounters()
	if err := run(); err != nil {
		return fmt.Errorf("%s without a fault: %w", c.Op, err)
	}
	calls := int64(0)
	if c.Mask&1 != 0 {
		calls += mem.reads
	}
	if c.Mask&2 != 0 {
		calls += mem.writes
	}
	if c.Mask&4 != 0 {
		calls += mem.seeks
	}
	ctx.NT(calls >= 3)
	ctx.Labelf(calls >= 50, "calls>=50")
	step := int64(1)
	if calls > 60 {
		step = calls/60 + 1
	}
	for k := 1 + int64(c.Start)%step; k <= calls; k += step {
		mem := newMem(state)
		run, _, err := prepare(mem)
		if err != nil {
			return err
		}
		mem.failAt, mem.failMask = k, c.Mask
		err = run()
		if c.Op == "vector-manager" && err == nil && !mem.failed {
			continue // the graph is random: this time there are fewer calls
		}
		if err == nil || err == errSilent {
			return fmt.Errorf("%s: storage call %d of %d (kinds %d) fails, but the operation reports success (%v)", c.Op, k, calls, c.Mask, err)
		}
		if !mem.failed {
			return fmt.Errorf("%s: fails without a storage failure", c.Op)
		}
		mem.failAt = 0
		if readOnly {
			if !bytes.Equal(mem.buf, state) {
				return fmt.Errorf("%s is read-only but after a failed storage call %d the stored bytes differ", c.Op, k)
			}
			if err := run(); err != nil { // storage has recovered, same handle
				return fmt.Errorf("%s after the storage recovered: %w", c.Op, err)
			}
			continue
		}
		if c.Mask == 1 && (c.Op == "insert" || strings.HasPrefix(c.Op, "sync") || c.Op == "index-create") {
			// nothing that was stored is lost
			before, err := readIndex(state, src.csv)
			if err != nil {
				return err
			}
			if err := superset(mem.buf, before, src.csv); err != nil {
				return fmt.Errorf("%s: after a failed read (call %d): %w", c.Op, k, err)
			}
		}
		if c.Mask == 1 && c.Op == "tree-insert" {
			t, err := plainTree(mem)
			if err != nil {
				return err
			}
			for i := 0; i < nt; i += 1 + nt/20 {
				key, p, err := t.Find(tkey(i))
				if err != nil || p != tptr(i) || key.DataPointer != tkey(i).DataPointer {
					return fmt.Errorf("after a failed read (call %d) while inserting, entry %d is %v, %v", k, i, p, err)
				}
			}
		}
		if c.Mask == 1 && c.Op == "vector-insert" {
			t, err := vecTree(mem)
			if err != nil {
				return err
			}
			for i := 0; i < nv; i += 1 + nv/20 {
				_, v, err := t.Find(vid(i))
				if err != nil || !reflect.DeepEqual(append([]float32{}, v...), vec(i)) {
					return fmt.Errorf("after a failed read (call %d) while inserting, vector %d is %v, %v", k, i, v, err)
				}
			}
		}
	}
	return nil
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

var errSilent = errors.New("no error, but a wrong answer")

// superset checks that every entry of an earlier state is still stored.
func superset(raw []byte, before *rFile, csv bool) error {
	after, err := readIndex(raw, csv)
	if err != nil {
		return err
	}
	for i, s := range before.slots {
		if i >= len(after.slots) || after.slots[i].name != s.name || after.slots[i].typ != s.typ {
			return fmt.Errorf("index %q/%s is gone", s.name, typeNames[s.typ])
		}
		have := map[string]bool{}
		for _, e := range after.slots[i].entries {
			have[fmt.Sprintf("%x/%v/%v", e.val, e.dp, e.leaf)] = true
		}
		for _, e := range s.entries {
			if !have[fmt.Sprintf("%x/%v/%v", e.val, e.dp, e.leaf)] {
				return fmt.Errorf("entry %x -> %v of index %q/%s is gone", e.val, e.leaf, s.name, typeNames[s.typ])
			}
		}
	}
	return nil
}

// ---- C32 ----

type detCase struct {
	UseCSV bool       `json:"useCSV"`
	Doc    docCase    `json:"doc"`
	CSV    csvCase    `json:"csv"`
	Steps  []histStep `json:"steps"`
	Opts   int        `json:"opts,omitempty"` // diagnostic options of the command, 4 bits per run
}

func genDet(o docOpts, steps int) func(t *rapid.T) detCase {
	return func(t *rapid.T) detCase {
		c := detCase{UseCSV: rapid.IntRange(0, 3).Draw(t, "csv") == 0}
		if c.UseCSV {
			c.CSV = genCSV(o)(t)
		} else {
			c.Doc = genDoc(o)(t)
		}
		c.Steps = genSteps(t, rapid.IntRange(0, steps).Draw(t, "nsteps"))
		return c
	}
}

// genCLI also draws the options for timings, debug output, benchmark and profile.
func genCLI(o docOpts, steps int) func(t *rapid.T) detCase {
	g := genDet(o, steps)
	return func(t *rapid.T) detCase {
		c := g(t)
		if rapid.Bool().Draw(t, "opts?") {
			c.Opts = rapid.IntRange(0, 1<<16-1).Draw(t, "opts")
		}
		return c
	}
}

// cliOpts gives the diagnostic options of run i, with files in dir.
func (c *detCase) cliOpts(i int, dir string) (opts []string) {
	b := c.Opts >> (4 * (i % 4))
	if b&1 != 0 {
		opts = append(opts, "-t")
	}
	if b&2 != 0 {
		opts = append(opts, "-debug")
	}
	if b&4 != 0 {
		opts = append(opts, "-b", filepath.Join(dir, "benchmark"))
	}
	if b&8 != 0 && i == 0 { // profiling takes a fifth of a second
		opts = append(opts, "-pprof", filepath.Join(dir, "profile"))
	}
	return opts
}

func (c *detCase) source() *source {
	if c.UseCSV {
		return &source{csv: true, data: c.CSV.bytes()}
	}
	return &source{data: c.Doc.bytes(), search: c.Doc.Search}
}

func firstDiff(a, b []byte) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("byte %d (page %d) is %#x and %#x", i, i/4096, a[i], b[i])
		}
	}
	return fmt.Sprintf("lengths %d and %d", len(a), len(b))
}

func judgeDet(c detCase, ctx *Ctx) error {
	src := c.source()
	if src.collision() {
		ctx.Label("skipped-collision")
		return nil
	}
	histLabels(ctx, src, c.Steps, kMem, src.model(len(src.data)))
	ctx.NT(src.model(len(src.data)).values >= 3)
	var ref []byte
	for _, kind := range []int{kMem, kMem, kFile, kMmap, kBuftest} {
		raw, err := runHistory(src, c.Steps, kind, ctx, nil)
		if err != nil {
			return err
		}
		if ref == nil {
			ref = raw
			continue
		}
		if !bytes.Equal(ref, raw) {
			return fmt.Errorf("the same synchronizations give another index file on storage kind %d: %s", kind, firstDiff(ref, raw))
		}
	}
	return nil
}

// cli runs the command line indexer that run.py built.
func cli(csv bool, search []string, index, data string, opts ...string) (int, string) {
	args := []string{"-jsonl"}
	if csv {
		args[0] = "-csv"
	}
	args = append(append(args, opts...), "-i", index)
	for _, s := range search {
		args = append(args, "-s", s)
	}
	return indexer(append(args, data)...)
}

func indexer(args ...string) (int, string) {
	bin, err := filepath.Abs("../appendable")
	if err != nil {
		panic(harnessError{err})
	}
	if _, err := os.Stat(bin); err != nil {
		panic(harnessError{err})
	}
	cmd := exec.Command(bin, args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	out, err := cmd.CombinedOutput()
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			panic(harnessError{err})
		}
		return max(1, ee.ExitCode()), string(out)
	}
	return 0, string(out)
}

func writeFile(p string, b []byte) {
	if err := os.WriteFile(p, b, 0o644); err != nil {
		panic(harnessError{err})
	}
}

func readFile(p string) []byte {
	b, err := os.ReadFile(p)
	if err != nil {
		panic(harnessError{err})
	}
	return b
}

// judgeCLI runs the steps through the command line and through the library. With strict
// the two index files must be identical (C32), otherwise they must have equal contents (C27).
func judgeCLI(c detCase, strict bool, ctx *Ctx) error {
	src := c.source()
	for _, s := range src.search {
		if strings.ContainsRune(s, 0) {
			return nil
		}
	}
	if src.collision() {
		ctx.Label("skipped-collision")
		return nil
	}
	all := src.model(len(src.data))
	histLabels(ctx, src, c.Steps, kMem, all)
	ctx.NT(all.values >= 3)
	ctx.Labelf(src.csv, "csv")
	ctx.Labelf(len(src.data) == 0, "empty-data-file")
	dir := ctx.Dir()
	index, data := filepath.Join(dir, "index"), filepath.Join(dir, "data")
	mem := newMem(nil)
	cuts := append(cutsOf(src.data, c.Steps), len(src.data))
	for i, n := range cuts {
		writeFile(data, src.data[:n])
		opts := c.cliOpts(i, dir)
		ctx.Labelf(len(opts) > 0, "diagnostic-options")
		if code, out := cli(src.csv, src.search, index, data, opts...); code != 0 {
			return fmt.Errorf("run %d on valid data exits with %d: %s", i, code, firstLine(out))
		}
		if !bytes.Equal(readFile(data), src.data[:n]) {
			return errors.New("the data file was modified")
		}
		f, err := src.open(mem)
		if err != nil {
			return err
		}
		if err := f.Synchronize(src.data[:n:n]); err != nil {
			return fmt.Errorf("library: %w", err)
		}
		got := readFile(index)
		if strict {
			if !bytes.Equal(got, mem.buf) {
				return fmt.Errorf("run %d: the index file of a separate process differs: %s", i, firstDiff(got, mem.buf))
			}
			continue
		}
		a, err := readIndex(got, src.csv)
		if err != nil {
			return err
		}
		b, err := readIndex(mem.buf, src.csv)
		if err != nil {
			return err
		}
		if err := sameFile(a, b); err != nil {
			return fmt.Errorf("run %d: %w", i, err)
		}
		if i == len(cuts)-1 || c.Steps[i].Again {
			if code, out := cli(src.csv, src.search, index, data, c.cliOpts(i+1, dir)...); code != 0 {
				return fmt.Errorf("running again exits with %d: %s", code, firstLine(out))
			}
			if !bytes.Equal(got, readFile(index)) {
				return errors.New("running again without new data changed the index file")
			}
		}
	}
	if strict {
		return nil
	}
	// rejected data
	bad := append(append([]byte{}, src.data[:all.readOffset]...), "{\"a\":\n"...)
	if src.csv {
		if all.readOffset == 0 {
			return nil
		}
		bad = append(append([]byte{}, src.data[:all.readOffset]...), strings.Repeat("x,", 600)+"\n"...)
	}
	writeFile(data, bad)
	if code, _ := cli(src.csv, src.search, index, data); code == 0 {
		return errors.New("invalid data: exit status 0")
	}
	if !bytes.Equal(readFile(data), bad) {
		return errors.New("the data file was modified")
	}
	// the wrong format
	if code, _ := cli(!src.csv, src.search, index, data); code == 0 {
		return errors.New("an index of the other format: exit status 0")
	}
	// no format, no data file
	before := readFile(index)
	if code, _ := indexer("-i", index, data); code == 0 {
		return errors.New("neither -jsonl nor -csv: exit status 0")
	}
	if code, _ := cli(src.csv, src.search, index, filepath.Join(dir, "absent")); code == 0 {
		return errors.New("a data file that does not exist: exit status 0")
	}
	if !bytes.Equal(before, readFile(index)) {
		return errors.New("a run without a format or data file changed the index file")
	}
	return nil
}

// ---- C28 ----

type convCase struct {
	Rows  []string `json:"rows"`
	Final bool     `json:"final"` // newline at the end
	CRLF  bool     `json:"crlf"`
	Bad   string   `json:"bad,omitempty"`
	HasB  bool     `json:"hasBad"`
	At    int      `json:"at"`
	Name  string   `json:"name"`
	Times int      `json:"times,omitempty"` // the rows are repeated that often more
	Deep  int      `json:"deep,omitempty"`  // one more row, nested that deeply
	Long  int      `json:"long,omitempty"`  // one more row, a string of that many characters
	Wide  int      `json:"wide,omitempty"`  // one more row, an object of that many members
}

// rows are all valid rows of the case.
func (c convCase) rows() []string {
	out := append([]string{}, c.Rows...)
	if c.Deep > 0 {
		var o, e strings.Builder
		for i := 0; i < c.Deep; i++ {
			if i*i%3 == 0 {
				o.WriteString("[1,")
				e.WriteString("]")
			} else {
				o.WriteString(`{"a":`)
				e.WriteString("}")
			}
		}
		closing := []byte(e.String())
		for i, j := 0, len(closing)-1; i < j; i, j = i+1, j-1 {
			closing[i], closing[j] = closing[j], closing[i]
		}
		out = append(out, o.String()+"null"+string(closing))
	}
	if c.Long > 0 {
		var o strings.Builder
		for i := 0; i < c.Long; i++ {
			o.WriteString([]string{"a", "é", "日", "\\n", "\\u0041", "🙂", "b", " "}[(i*i+i/7)%8])
		}
		out = append(out, `"`+o.String()+`"`)
	}
	if c.Wide > 0 {
		var o strings.Builder
		for i := 0; i < c.Wide; i++ {
			fmt.Fprintf(&o, `,"m%d":[%d,"v%d"]`, i*7%c.Wide, i, i)
		}
		out = append(out, "{"+o.String()[1:]+"}")
	}
	once := out
	for i := 0; i < c.Times; i++ {
		out = append(out, once...)
	}
	return out
}

func genConvNum(r rng) string {
	switch r.n(5) {
	case 0:
		return []string{"0", "-1", "9007199254740993", "18446744073709551615", "-9223372036854775808", "1e3", "2.5E-3", "123456789012.5", "0.1", "-0.25", "1e22", "1E-22", "100"}[r.n(13)]
	case 1:
		return fmt.Sprint(r.n(1000000) - 500000)
	default:
		return fmt.Sprintf("%d.%d", r.n(100000), r.n(100000))
	}
}

func genConvValue(r rng, st *docStyle, depth int) string {
	k := r.n(12)
	if depth > 3 && k >= 9 {
		k -= 9
	}
	switch {
	case k < 4:
		return quoteJSON(r, genText(r), true)
	case k < 6:
		return genConvNum(r)
	case k < 9:
		return []string{"true", "false", "null"}[k-6]
	}
	n := r.n(4)
	var parts []string
	for i := 0; i < n; i++ {
		v := ws(r, st, false) + genConvValue(r, st, depth+1) + ws(r, st, false)
		if k != 9 {
			v = ws(r, st, false) + quoteJSON(r, fieldPool[r.n(len(fieldPool))], true) + ws(r, st, false) + ":" + v
		}
		parts = append(parts, v)
	}
	if k == 9 {
		return "[" + strings.Join(parts, ",") + "]"
	}
	return "{" + strings.Join(parts, ",") + "}"
}

func genConv(t *rapid.T) convCase {
	r := rapidRng{t}
	st := &docStyle{WS: weighted(t, "ws", 2, 1, 2)}
	c := convCase{Final: rapid.Bool().Draw(t, "final"), CRLF: rapid.IntRange(0, 4).Draw(t, "crlf") == 0, At: rapid.IntRange(0, 1000).Draw(t, "at")}
	for i, k := 0, drawSize(t, 40); i < k; i++ {
		if skip(t) {
			continue
		}
		c.Rows = append(c.Rows, genConvValue(r, st, 0))
	}
	c.Name = []string{"data.jsonl", "data.jsonl", "x.jsonl.jsonl", "d.jsonl/in.jsonl", "ünï.jsonl", "a b.jsonl"}[weighted(t, "name", 3, 3, 1, 1, 1, 1)]
	if rapid.IntRange(0, 3).Draw(t, "more") == 0 {
		c.Deep = []int{0, 1, 10, 64, 120, rapid.IntRange(1, 126).Draw(t, "deep")}[rapid.IntRange(0, 5).Draw(t, "deepk")]
		c.Long = []int{0, 100, 4096, 8191, 70000, rapid.IntRange(1, 20000).Draw(t, "long")}[rapid.IntRange(0, 5).Draw(t, "longk")]
		c.Wide = []int{0, 1, 300, rapid.IntRange(1, 2000).Draw(t, "wide")}[rapid.IntRange(0, 3).Draw(t, "widek")]
		if c.Long < 5000 && c.Wide < 400 {
			c.Times = []int{0, 1, 30, rapid.IntRange(0, 300).Draw(t, "times")}[rapid.IntRange(0, 3).Draw(t, "timesk")]
		}
	}
	c.HasB = rapid.IntRange(0, 4).Draw(t, "bad") == 0
	c.Bad = []string{"", "{", `{"a":1,}`, "[1", "nul", `"x`, "1 2", `{"a":1}{"b":2}`, "01", `"\x"`, `{"a":"<ff>"}`, `"<c3>("`,
		"\f1", "1\v", "\u00a0{}", "{\"a\":1}\u00a0", "\ufeff{}", "1\u2028", "\u3000[]", "\x00", "1\x00", "\"a\tb\"", "\"\x00\"", " ", "\t",
		"NaN", "-Infinity", "'a'", "{a:1}", "1,", "[1,]", "[,1]", "[1 2]", `{"a" 1}`, `{"a":}`, `{1:2}`, "+1", ".5", "1.", "1.e3", "1e", "0x10", "1_0", "-", "--1", "True", "nulll", "null null",
		"1//", "/**/1", "#", "]", "[}", `{"a":1]`, `"\u12"`, `"\uzzzz"`, `"\'"`, `"a`, `a"`, `{"a":1}}`, "[[1]", `{"a":{"b":1}`, `1"a"`}[r.n(63)]
	return c
}

func judgeConv(c convCase, ctx *Ctx) error {
	nl := "\n"
	if c.CRLF {
		nl = "\r\n"
	}
	valid := c.rows()
	rows := append([]string{}, valid...)
	if c.HasB {
		at := len(rows) * c.At / 1001
		// <ff> stands for that byte, which is not UTF-8 and so not JSON
		bad := strings.NewReplacer("<ff>", "\xff", "<c3>", "\xc3").Replace(c.Bad)
		rows = append(rows[:at], append([]string{bad}, rows[at:]...)...)
	}
	var b strings.Builder
	for i, r := range rows {
		b.WriteString(r)
		if i < len(rows)-1 || c.Final || c.HasB {
			b.WriteString(nl)
		}
	}
	in := []byte(b.String())
	if !utf8.Valid(in) && !c.HasB {
		panic(harnessError{errors.New("generated text is not UTF-8")})
	}
	if len(valid) != len(rows) && !c.HasB {
		panic(harnessError{errors.New("rows were lost")})
	}
	ctx.Labelf(c.HasB, "invalid-row")
	ctx.Labelf(len(rows) == 0, "empty-file")
	ctx.Labelf(!c.Final, "no-final-newline")
	ctx.Labelf(len(in) > 8192, "over-8k")
	ctx.Labelf(len(in) > 65536, "over-64k")
	ctx.Labelf(len(rows) > 1000, "over-1000-rows")
	ctx.Labelf(c.Deep > 60, "deep")
	ctx.NT(len(valid) >= 2)
	dir := ctx.Dir()
	path := filepath.Join(dir, c.Name)
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		panic(harnessError{err})
	}
	writeFile(path, in)
	bin, err := filepath.Abs("../cargo/debug/jsonl2json")
	if err != nil {
		panic(harnessError{err})
	}
	if _, err := os.Stat(bin); err != nil {
		panic(harnessError{err})
	}
	cmd := exec.Command(bin, "-f", path)
	out, err := cmd.CombinedOutput()
	code := 0
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			panic(harnessError{err})
		}
		code = max(1, ee.ExitCode())
	}
	if !bytes.Equal(readFile(path), in) {
		return errors.New("the input file was changed")
	}
	if c.HasB {
		if code == 0 {
			return fmt.Errorf("invalid row %q is accepted", c.Bad)
		}
		return nil
	}
	if code != 0 {
		return fmt.Errorf("valid input makes the command fail: %s", firstLine(string(out)))
	}
	res, err := os.ReadFile(strings.TrimSuffix(path, "l"))
	if err != nil {
		return fmt.Errorf("no output file: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(res))
	dec.UseNumber()
	var arr []any
	if err := dec.Decode(&arr); err != nil || arr == nil {
		return fmt.Errorf("the output is not a JSON array: %v", err)
	}
	if len(arr) != len(rows) {
		return fmt.Errorf("%d elements for %d rows", len(arr), len(rows))
	}
	for i, r := range rows {
		d := json.NewDecoder(strings.NewReader(r))
		d.UseNumber()
		var want any
		if err := d.Decode(&want); err != nil {
			panic(harnessError{err})
		}
		if err := sameJSON(arr[i], want); err != nil {
			return fmt.Errorf("element %d differs from row %s: %w", i, short([]byte(r)), err)
		}
	}
	return nil
}

func sameJSON(got, want any) error {
	switch w := want.(type) {
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok || len(g) != len(w) {
			return fmt.Errorf("%v instead of an object of %d members", got, len(w))
		}
		for k := range w {
			if _, ok := g[k]; !ok {
				return fmt.Errorf("member %q is missing", k)
			}
			if err := sameJSON(g[k], w[k]); err != nil {
				return err
			}
		}
		return nil
	case []any:
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			return fmt.Errorf("%v instead of an array of %d", got, len(w))
		}
		for i := range w {
			if err := sameJSON(g[i], w[i]); err != nil {
				return err
			}
		}
		return nil
	case json.Number:
		g, ok := got.(json.Number)
		if !ok {
			return fmt.Errorf("%v instead of %v", got, want)
		}
		if g == w {
			return nil
		}
		if !strings.ContainsAny(string(w), ".eE") { // whole numbers: exactly
			return fmt.Errorf("number %v instead of %v", got, want)
		}
		a, e1 := g.Float64()
		b, e2 := w.Float64()
		if e1 != nil || e2 != nil || math.Float64bits(a) != math.Float64bits(b) {
			return fmt.Errorf("number %v instead of %v", got, want)
		}
		return nil
	default:
		if !reflect.DeepEqual(got, want) {
			return fmt.Errorf("%v instead of %v", got, want)
		}
		return nil
	}
}

// ---- C33 ----

func judgeLayout(c detCase, ctx *Ctx) error {
	src := c.source()
	if src.collision() {
		ctx.Label("skipped-collision")
		return nil
	}
	m := src.model(len(src.data))
	histLabels(ctx, src, c.Steps, kMem, m)
	ctx.Labelf(src.csv, "csv")
	raw, err := runHistory(src, c.Steps, kMem, ctx, nil)
	if err != nil {
		return err
	}
	ctx.NT(m.values >= 5)
	return checkLayout(raw, m, src, ctx)
}

func checkLayout(raw []byte, m *mFile, src *source, ctx *Ctx) error {
	r, err := readIndex(raw, src.csv)
	if err != nil {
		return err
	}
	format := byte(0)
	if src.csv {
		format = 1
	}
	if r.version != 1 || r.format != format {
		return fmt.Errorf("version %d format %d", r.version, r.format)
	}
	for _, s := range r.slots {
		if s.root.O == 0 {
			continue
		}
		w := s.width
		if src.csv {
			w = 0
		}
		var verr error
		val := func(k bpKey) []byte {
			if w != 0 {
				return k.val
			}
			v, err := storedValue(src.data, k.dp, s.typ, src.csv)
			if err != nil && verr == nil {
				verr = err
			}
			return v
		}
		if err := checkBounds(raw, s.root.O, w, val, nil, nil); err != nil {
			return fmt.Errorf("index %q/%s: %w", s.name, typeNames[s.typ], err)
		}
		if verr != nil {
			return fmt.Errorf("index %q/%s: %w", s.name, typeNames[s.typ], verr)
		}
		ctx.Labelf(treeDepth(raw, s, src.csv) >= 2, "depth>=2")
	}
	return compareIndex(r, m, src.data, cmpOpts{order: true, meta: true, entries: true, grams: true, totals: !src.csv, csv: src.csv})
}

//go:embed all:golden
var goldenFS embed.FS

type goldenFile struct {
	CSV    bool     `json:"csv"`
	Search []string `json:"search"`
	Data   []byte   `json:"data"`
	Index  []byte   `json:"index"`
}

func loadGolden() []goldenFile {
	ents, err := goldenFS.ReadDir("golden")
	if err != nil {
		panic(harnessError{err})
	}
	var out []goldenFile
	for _, e := range ents {
		f, err := goldenFS.Open("golden/" + e.Name())
		if err != nil {
			panic(harnessError{err})
		}
		z, err := gzip.NewReader(f)
		if err != nil {
			panic(harnessError{err})
		}
		var g goldenFile
		if err := json.NewDecoder(z).Decode(&g); err != nil {
			panic(harnessError{err})
		}
		out = append(out, g)
	}
	return out
}

var goldens []goldenFile

type goldenCase struct {
	File  int        `json:"file"`
	Doc   docCase    `json:"doc"`
	Steps []histStep `json:"steps"`
	Cols  []string   `json:"cols"` // rows added to CSV files
}

func genGolden(t *rapid.T) goldenCase {
	if goldens == nil {
		goldens = loadGolden()
	}
	c := goldenCase{File: rapid.IntRange(0, len(goldens)-1).Draw(t, "file")}
	g := goldens[c.File]
	if g.CSV {
		cols := strings.Count(string(g.Data[:bytes.IndexByte(g.Data, '\n')]), ",") + 1
		for i, k := 0, drawSize(t, 12); i < k; i++ {
			c.Cols = append(c.Cols, genCSVRow(rapidRng{t}, cols, false))
		}
	} else {
		c.Doc = genDoc(docOpts{rows: 10, bulk: 80})(t)
	}
	c.Steps = genSteps(t, rapid.IntRange(0, 2).Draw(t, "nsteps"))
	return c
}

func judgeGolden(c goldenCase, ctx *Ctx) error {
	if goldens == nil {
		goldens = loadGolden()
	}
	g := goldens[c.File]
	more := c.Doc.bytes()
	if g.CSV {
		more = []byte(strings.Join(append(append([]string{}, c.Cols...), ""), "\n"))
	}
	src := &source{csv: g.CSV, search: g.Search, data: append(append([]byte{}, g.Data...), more...)}
	if src.collision() {
		ctx.Label("skipped-collision")
		return nil
	}
	ctx.Labelf(g.CSV, "csv")
	ctx.Labelf(!g.CSV, "jsonl")
	ctx.NT(len(more) > 0)
	mem := newMem(g.Index)
	f, err := src.open(mem)
	if err != nil {
		return fmt.Errorf("opening a stored index: %w", err)
	}
	m := src.model(len(g.Data))
	if err := checkMeta(f, m, src); err != nil {
		return err
	}
	if err := libCheck(f, m, src.data, src.handler(), src.csv, true, 10); err != nil {
		return err
	}
	if !bytes.Equal(mem.buf, g.Index) {
		return errors.New("opening a stored index changed it")
	}
	cuts := append(cutsOf(more, c.Steps), len(more))
	for _, n := range cuts {
		k := len(g.Data) + n
		if err := f.Synchronize(src.data[:k:k]); err != nil {
			return fmt.Errorf("extending a stored index: %w", err)
		}
	}
	return checkLayout(mem.buf, src.model(len(src.data)), src, ctx)
}

// writeGolden makes the stored index files; it was run once against the pinned version.
func writeGolden(dir string) {
	k := 0
	for seed := uint64(1); k < 26 && seed < 400; seed++ {
		r := splitmix(seed)
		g := goldenFile{CSV: seed%4 == 0}
		src := &source{csv: g.CSV}
		rows := []int{0, 3, 12, 60, 150, 400}[seed%6]
		if g.CSV {
			c := csvCase{Head: []string{"id", "name", "ok", "note"}[:1+r.n(4)], Items: []docItem{{Bulk: max(1, rows), Seed: seed, Style: r.n(2)}}}
			g.Data = c.bytes()
		} else {
			c := docCase{Nest: r.n(2) == 0, Fancy: r.n(2) == 0}
			for i, n := 0, 1+r.n(6); i < n; i++ {
				c.Names = append(c.Names, fieldPool[r.n(len(fieldPool))])
			}
			if r.n(5) == 0 {
				for i := 0; i < 35; i++ {
					c.Names = append(c.Names, fmt.Sprintf("f%d", i))
				}
			}
			if rows > 0 {
				c.Items = []docItem{{Bulk: rows, Seed: seed, Style: r.n(4)}}
			}
			if r.n(2) == 0 {
				g.Search = c.Names[:1]
			}
			g.Data = c.bytes()
		}
		src.data, src.search = g.Data, g.Search
		if src.collision() {
			continue
		}
		mem := newMem(nil)
		f, err := src.open(mem)
		if err == nil {
			err = f.Synchronize(g.Data)
		}
		if err != nil {
			continue
		}
		g.Index = mem.buf
		if _, err := readIndex(g.Index, g.CSV); err != nil {
			continue
		}
		b, _ := json.Marshal(g)
		var z bytes.Buffer
		w, _ := gzip.NewWriterLevel(&z, 9)
		w.Write(b)
		w.Close()
		if z.Len() > 60000 {
			continue
		}
		os.WriteFile(filepath.Join(dir, fmt.Sprintf("g%02d.json.gz", k)), z.Bytes(), 0o644)
		fmt.Println(k, seed, g.CSV, rows, len(g.Index)/4096, z.Len(), g.Search)
		k++
	}
}

func init() {
	register("C11", "at least two tokens",
		sub("tokens", 60000, 1200000, genTok, judgeTok),
	)
	register("C27", "at least 3 indexed values",
		sub("cli", 320, 6000, genCLI(docOpts{rows: 10, bulk: 120, search: true}, 3), func(c detCase, ctx *Ctx) error { return judgeCLI(c, false, ctx) }),
	)
	register("C28", "at least two rows",
		sub("convert", 1200, 24000, genConv, judgeConv),
	)
	register("C30", "the index has more than 10 pages before rows are appended",
		sub("cost", 160, 6000, genCost, judgeCost),
	)
	register("C31", "the operation makes at least 3 storage calls of the failing kind",
		sub("fault", 6000, 100000, genFault, judgeFault),
	)
	register("C32", "at least 3 indexed values",
		sub("storage", 1200, 30000, genDet(docOpts{rows: 10, bulk: 150, search: true}, 3), judgeDet),
		sub("process", 160, 5000, genDet(docOpts{rows: 10, bulk: 150, search: true}, 2), func(c detCase, ctx *Ctx) error { return judgeCLI(c, true, ctx) }),
	)
	register("C33", "at least 5 indexed values (layout), rows added (golden), or a tree of several pages (vectors)",
		sub("vectors", 800, 16000, genVecCase, judgeVecLayout),
		sub("layout", 3000, 60000, genDet(docOpts{rows: 12, bulk: 0, search: true}, 3), judgeLayout),
		sub("bulk", 240, 5000, genDet(docOpts{rows: 3, bulk: 1600, search: true}, 3), judgeLayout),
		sub("golden", 400, 8000, genGolden, judgeGolden),
	)
}
