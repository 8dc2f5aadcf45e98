package main

// C07-C10, C14, C29: JSONL index files.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/buftest"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/mmap"
	"github.com/kevmo314/appendable/pkg/pointer"
	"golang.org/x/sys/unix"
	"pgregory.net/rapid"
)

func openJSONL(s io.ReadWriteSeeker, search []string) (*appendable.IndexFile, error) {
	return appendable.NewIndexFile(s, handlers.JSONLHandler{}, search)
}

// mustModel builds the model of a document the generator made; a generator that makes
// invalid documents is a harness error, not a violation.
func mustModel(data []byte, search []string) *mFile {
	m, err := modelJSONL(data, search)
	if err != nil {
		panic(harnessError{fmt.Errorf("generated document: %w", err)})
	}
	return m
}

type libSlot struct {
	page *linkedpage.LinkedPage
	meta *appendable.IndexMeta
}

// libSlots walks the index slots through the library.
func libSlots(f *appendable.IndexFile) ([]libSlot, error) {
	var out []libSlot
	p, err := f.Indexes()
	for ; err == nil; p, err = p.Next() {
		buf, err := p.Metadata()
		if err != nil {
			return nil, fmt.Errorf("slot metadata: %w", err)
		}
		m := &appendable.IndexMeta{}
		if err := m.UnmarshalBinary(buf); err != nil {
			return nil, fmt.Errorf("slot metadata: %w", err)
		}
		out = append(out, libSlot{p, m})
		if len(out) > 100000 {
			return nil, errors.New("endless list of slots")
		}
	}
	if !errors.Is(err, io.EOF) {
		return nil, fmt.Errorf("walking the slots: %w", err)
	}
	return out, nil
}

// libCheck compares what the library answers about an open index with the model: for
// every field and type a full iteration, and lookups of up to probes stored values.
func libCheck(f *appendable.IndexFile, m *mFile, data []byte, parser bptree.DataParser, csv bool, grams bool, probes int) error {
	slots, err := libSlots(f)
	if err != nil {
		return err
	}
	seen := map[string]bool{}
	for _, s := range slots {
		k := fmt.Sprintf("%d/%s", s.meta.FieldType, s.meta.FieldName)
		if seen[k] {
			return fmt.Errorf("index %s is listed twice", k)
		}
		seen[k] = true
		x := m.by[k]
		if x == nil {
			return fmt.Errorf("index for field %q type %d, which does not occur", s.meta.FieldName, s.meta.FieldType)
		}
		gram := x.typ == tUni || x.typ == tBi || x.typ == tTri
		if gram && !grams {
			continue
		}
		what := fmt.Sprintf("index %q/%s", x.name, typeNames[x.typ])
		w := s.meta.Width
		if csv {
			w = 0
		}
		tree := s.page.BPTree(&bptree.BPTree{Data: data, DataParser: parser, Width: w})
		// full iteration
		it, err := tree.Iter(pointer.ReferencedValue{})
		if err != nil {
			return fmt.Errorf("%s: iterator: %w", what, err)
		}
		rows := map[ptr]int{}
		var prev []byte
		n := 0
		for it.Next() {
			k, v := it.Key(), it.Pointer()
			if n > 0 && bytes.Compare(prev, k.Value) > 0 {
				return fmt.Errorf("%s: iteration is not in ascending order", what)
			}
			prev = append(prev[:0], k.Value...)
			rows[ptr{v.Offset, v.Length}]++
			n++
			if n > len(x.entries)+5 {
				return fmt.Errorf("%s: iteration yields more than the %d entries", what, len(x.entries))
			}
		}
		if n != len(x.entries) {
			return fmt.Errorf("%s: iteration yields %d entries, want %d", what, n, len(x.entries))
		}
		for _, e := range x.entries {
			rows[e.row]--
			if rows[e.row] < 0 {
				return fmt.Errorf("%s: row %v is not reached", what, e.row)
			}
		}
		// lookups: the smallest entry of a stored value
		step := 1
		if len(x.entries) > probes {
			step = len(x.entries)/probes + 1
		}
		rowsOf := map[string]map[ptr]bool{}
		for _, e := range x.entries {
			if rowsOf[string(e.val)] == nil {
				rowsOf[string(e.val)] = map[ptr]bool{}
			}
			rowsOf[string(e.val)][e.row] = true
		}
		for i := 0; i < len(x.entries); i += step {
			e := x.entries[i]
			k, v, err := tree.Find(pointer.ReferencedValue{Value: e.val})
			if err != nil {
				return fmt.Errorf("%s: find %s: %w", what, short(e.val), err)
			}
			if !bytes.Equal(k.Value, e.val) || !rowsOf[string(e.val)][ptr{v.Offset, v.Length}] {
				return fmt.Errorf("%s: looking up %s gives value %s -> %v", what, short(e.val), short(k.Value), v)
			}
		}
	}
	for _, x := range m.indexes {
		if !seen[fmt.Sprintf("%d/%s", x.typ, x.name)] {
			return fmt.Errorf("no index for field %q type %s", x.name, typeNames[x.typ])
		}
	}
	return nil
}

func docLabels(ctx *Ctx, c *docCase, m *mFile) {
	ctx.Labelf(m.entries == 0, "no-rows")
	ctx.Labelf(m.entries >= 200, "rows>=200")
	ctx.Labelf(len(m.indexes) > 14, "slot-pages>=2")
	ctx.Labelf(len(m.indexes) > 29, "slot-pages>=3")
	ctx.Labelf(c.WS == 2, "whitespace")
	ctx.Labelf(c.Tail != "", "incomplete-tail")
	ctx.Labelf(len(c.Search) > 0, "search-fields")
	types := map[string]int{}
	dup := false
	for _, x := range m.indexes {
		types[x.name]++
		ctx.Label("type-" + typeNames[x.typ])
		vs := map[string]bool{}
		for _, e := range x.entries {
			dup = dup || vs[string(e.val)]
			vs[string(e.val)] = true
		}
	}
	ctx.Labelf(dup, "duplicate-values")
	for _, n := range types {
		ctx.Labelf(n >= 3, "mixed-type-field")
	}
	ctx.NT(m.values >= 5)
}

// C07

func judgeJSONL(c docCase, ctx *Ctx) error {
	data := c.bytes()
	m := mustModel(data, nil)
	docLabels(ctx, &c, m)
	mem := newMem(nil)
	f, err := openJSONL(mem, nil)
	if err != nil {
		return err
	}
	if err := f.Synchronize(data); err != nil {
		return fmt.Errorf("valid data is refused: %w", err)
	}
	r, err := readIndex(mem.buf, false)
	if err != nil {
		return err
	}
	ctx.Labelf(r.treePages > len(r.slots), "multi-page-tree")
	if err := compareIndex(r, m, data, cmpOpts{entries: true}); err != nil {
		return err
	}
	return libCheck(f, m, data, handlers.JSONLHandler{}, false, false, 40)
}

// ---- storage kinds ----

const (
	kMem = iota
	kFile
	kMmap
	kBuftest
	nKinds
)

type store struct {
	kind int
	path string
	mem  *memFile
	buf  *buftest.SeekableBuffer
	file *os.File
	mm   *mmap.MemoryMappedFile
}

func newStore(kind int, ctx *Ctx) (*store, error) {
	s := &store{kind: kind}
	switch kind {
	case kMem:
		s.mem = newMem(nil)
	case kBuftest:
		s.buf = buftest.NewSeekableBuffer()
	default:
		s.path = filepath.Join(ctx.Dir(), "index")
		return s, s.open()
	}
	return s, nil
}

func (s *store) open() (err error) {
	switch s.kind {
	case kFile:
		if s.file, err = os.OpenFile(s.path, os.O_RDWR|os.O_CREATE, 0o644); err != nil {
			panic(harnessError{err})
		}
	case kMmap:
		s.mm, err = mmap.OpenFile(s.path, os.O_RDWR|os.O_CREATE, 0o644)
	}
	return err
}

func (s *store) close() (err error) {
	switch s.kind {
	case kFile:
		err = s.file.Close()
	case kMmap:
		err = s.mm.Close()
	}
	return err
}

func (s *store) rws() io.ReadWriteSeeker {
	switch s.kind {
	case kMem:
		return s.mem
	case kFile:
		return s.file
	case kMmap:
		return s.mm
	}
	return s.buf
}

func (s *store) bytes() []byte {
	switch s.kind {
	case kMem:
		return s.mem.snapshot()
	case kMmap:
		return append([]byte(nil), s.mm.Bytes()...)
	case kBuftest:
		return append([]byte(nil), s.buf.Bytes()...)
	}
	b, err := os.ReadFile(s.path)
	if err != nil {
		panic(harnessError{err})
	}
	return b
}

// ---- histories ----

type histStep struct {
	Line   int  `json:"line"`  // cut after this many per mille of the lines
	Delta  int  `json:"delta"` // and this many bytes further
	Reopen bool `json:"reopen"`
	Again  bool `json:"again"` // synchronize once more
}

func genSteps(t *rapid.T, n int) []histStep {
	var out []histStep
	for i := 0; i < n; i++ {
		if skip(t) {
			continue
		}
		s := histStep{Line: rapid.IntRange(0, 1000).Draw(t, "line"), Reopen: rapid.Bool().Draw(t, "reopen"), Again: rapid.IntRange(0, 3).Draw(t, "again") == 0}
		switch weighted(t, "delta", 3, 3, 2) {
		case 1:
			s.Delta = rapid.IntRange(-3, 3).Draw(t, "near")
		case 2:
			s.Delta = rapid.IntRange(-40, 60).Draw(t, "far")
		}
		out = append(out, s)
	}
	return out
}

// cutsOf resolves the steps to ascending positions in the document.
func cutsOf(data []byte, steps []histStep) []int {
	ends := []int{0}
	for i, b := range data {
		if b == '\n' {
			ends = append(ends, i+1)
		}
	}
	var out []int
	for _, s := range steps {
		p := ends[s.Line*(len(ends)-1)/1000] + s.Delta
		out = append(out, max(0, min(len(data), p)))
	}
	sort.Ints(out)
	return out
}

// handlerKind selects JSONL or CSV.
type source struct {
	csv    bool
	data   []byte
	search []string
}

func (s *source) model(n int) *mFile {
	if s.csv {
		return mustCSV(s.data[:n])
	}
	return mustModel(s.data[:n], s.search)
}

func (s *source) handler() appendable.DataHandler {
	if s.csv {
		return handlers.CSVHandler{}
	}
	return handlers.JSONLHandler{}
}

func (s *source) open(rws io.ReadWriteSeeker) (*appendable.IndexFile, error) {
	return appendable.NewIndexFile(rws, s.handler(), s.search)
}

// grams reports whether the n-gram entries of the data can all be stored.
func (s *source) collision() bool { return !s.csv && s.model(len(s.data)).collision }

// runHistory synchronizes growing prefixes of the data, checking every step with check,
// and returns the final index bytes.
func runHistory(src *source, steps []histStep, kind int, ctx *Ctx, check func(step int, raw []byte, f *appendable.IndexFile, m *mFile, n int) error) ([]byte, error) {
	st, err := newStore(kind, ctx)
	if err != nil {
		return nil, err
	}
	closed := false
	defer func() {
		if !closed {
			st.close()
		}
	}()
	f, err := src.open(st.rws())
	if err != nil {
		return nil, fmt.Errorf("open: %w", err)
	}
	cuts := append(cutsOf(src.data, steps), len(src.data))
	opts := append(append([]histStep{}, steps...), histStep{Again: true})
	last := -1
	for i, n := range cuts {
		m := src.model(n)
		before := st.bytes()
		if err := f.Synchronize(src.data[:n:n]); err != nil {
			return nil, fmt.Errorf("step %d: synchronizing the first %d bytes: %w", i, n, err)
		}
		raw := st.bytes()
		if int(m.readOffset) == last || (last == -1 && m.readOffset == 0) {
			ctx.Label("step-without-new-lines")
			if !bytes.Equal(before, raw) {
				return nil, fmt.Errorf("step %d: synchronizing without new complete lines changed the stored bytes", i)
			}
		}
		last = int(m.readOffset)
		if opts[i].Again {
			if err := f.Synchronize(src.data[:n:n]); err != nil {
				return nil, fmt.Errorf("step %d: synchronizing again: %w", i, err)
			}
			if !bytes.Equal(raw, st.bytes()) {
				return nil, fmt.Errorf("step %d: synchronizing again changed the stored bytes", i)
			}
		}
		if check != nil {
			if err := check(i, raw, f, m, n); err != nil {
				return nil, fmt.Errorf("after step %d (%d bytes): %w", i, n, err)
			}
		}
		if opts[i].Reopen {
			ctx.Label("reopen")
			if err := st.close(); err != nil {
				return nil, fmt.Errorf("close: %w", err)
			}
			closed = true
			if err := st.open(); err != nil {
				return nil, fmt.Errorf("open: %w", err)
			}
			closed = false
			if !bytes.Equal(raw, st.bytes()) {
				return nil, fmt.Errorf("after step %d: the stored bytes differ after closing and opening", i)
			}
			if f, err = src.open(st.rws()); err != nil {
				return nil, fmt.Errorf("reopen: %w", err)
			}
		}
	}
	raw := st.bytes()
	err = st.close()
	closed = true
	return raw, err
}

type histCase struct {
	Doc   docCase    `json:"doc"`
	Steps []histStep `json:"steps"`
	Kind  int        `json:"kind"`
}

func genHist(o docOpts, steps int) func(t *rapid.T) histCase {
	g := genDoc(o)
	return func(t *rapid.T) histCase {
		return histCase{Doc: g(t), Steps: genSteps(t, rapid.IntRange(0, steps).Draw(t, "nsteps")), Kind: weighted(t, "kind", 5, 1, 2, 1)}
	}
}

type csvHist struct {
	Doc   csvCase    `json:"doc"`
	Steps []histStep `json:"steps"`
	Kind  int        `json:"kind"`
}

func genCSVHist(o docOpts, steps int) func(t *rapid.T) csvHist {
	g := genCSV(o)
	return func(t *rapid.T) csvHist {
		return csvHist{Doc: g(t), Steps: genSteps(t, rapid.IntRange(0, steps).Draw(t, "nsteps")), Kind: weighted(t, "kind", 5, 1, 2, 1)}
	}
}

func histLabels(ctx *Ctx, src *source, steps []histStep, kind int, m *mFile) {
	ctx.Label([]string{"memory", "file", "mmap", "buffer"}[kind])
	inside, distinct := false, map[int]bool{}
	for _, p := range cutsOf(src.data, steps) {
		inside = inside || (p > 0 && p < len(src.data) && src.data[p-1] != '\n')
		distinct[p] = true
	}
	ctx.Labelf(inside, "cut-inside-a-line")
	ctx.Labelf(m.entries >= 200, "rows>=200")
	ctx.Labelf(len(m.indexes) > 14, "slot-pages>=2")
	ctx.NT(m.values >= 3 && len(distinct) >= 1)
}

// sameFile compares two decoded index files completely.
func sameFile(a, b *rFile) error {
	if a.version != b.version || a.format != b.format || a.readOffset != b.readOffset || a.entries != b.entries {
		return fmt.Errorf("file metadata %d/%d/%d/%d, want %d/%d/%d/%d", a.version, a.format, a.readOffset, a.entries, b.version, b.format, b.readOffset, b.entries)
	}
	if len(a.slots) != len(b.slots) {
		return fmt.Errorf("%d indexes, want %d", len(a.slots), len(b.slots))
	}
	for i := range a.slots {
		x, y := a.slots[i], b.slots[i]
		if x.name != y.name || x.typ != y.typ || x.width != y.width || x.total != y.total {
			return fmt.Errorf("index %d is %q/%s width %d total %d, want %q/%s width %d total %d", i, x.name, typeNames[x.typ], x.width, x.total, y.name, typeNames[y.typ], y.width, y.total)
		}
		if len(x.entries) != len(y.entries) {
			return fmt.Errorf("index %q/%s has %d entries, want %d", x.name, typeNames[x.typ], len(x.entries), len(y.entries))
		}
		for k := range x.entries {
			if !reflect.DeepEqual(x.entries[k], y.entries[k]) {
				return fmt.Errorf("entry %d of index %q/%s is %v, want %v", k, x.name, typeNames[x.typ], x.entries[k], y.entries[k])
			}
		}
	}
	return nil
}

func checkMeta(f *appendable.IndexFile, m *mFile, src *source) error {
	fm, err := f.Metadata()
	if err != nil {
		return fmt.Errorf("metadata: %w", err)
	}
	if fm.ReadOffset != m.readOffset {
		return fmt.Errorf("recorded position %d, want %d", fm.ReadOffset, m.readOffset)
	}
	if !src.csv && fm.Entries != m.entries {
		return fmt.Errorf("recorded entry count %d, want %d", fm.Entries, m.entries)
	}
	if fm.Version != appendable.CurrentVersion || fm.Format != src.handler().Format() {
		return fmt.Errorf("version %d format %d", fm.Version, fm.Format)
	}
	return nil
}

// incremental is C08 and C13.
func incremental(src *source, steps []histStep, kind int, ctx *Ctx) error {
	if src.collision() {
		ctx.Label("skipped-collision")
		return nil
	}
	o := cmpOpts{order: true, meta: true, entries: true, grams: true, totals: !src.csv, csv: src.csv}
	raw, err := runHistory(src, steps, kind, ctx, func(i int, raw []byte, f *appendable.IndexFile, m *mFile, n int) error {
		if i == 0 {
			histLabels(ctx, src, steps, kind, src.model(len(src.data)))
		}
		if err := checkMeta(f, m, src); err != nil {
			return err
		}
		if m.readOffset == 0 {
			return nil
		}
		r, err := readIndex(raw, src.csv)
		if err != nil {
			return err
		}
		return compareIndex(r, m, src.data, o)
	})
	if err != nil {
		return err
	}
	mem := newMem(nil)
	f, err := src.open(mem)
	if err != nil {
		return err
	}
	if err := f.Synchronize(src.data); err != nil {
		return fmt.Errorf("one synchronization: %w", err)
	}
	a, err := readIndex(raw, src.csv)
	if err != nil {
		return err
	}
	b, err := readIndex(mem.buf, src.csv)
	if err != nil {
		return err
	}
	if err := sameFile(a, b); err != nil {
		return fmt.Errorf("several synchronizations against one: %w", err)
	}
	return nil
}

func judgeC08(c histCase, ctx *Ctx) error {
	src := &source{data: c.Doc.bytes(), search: c.Doc.Search}
	return incremental(src, c.Steps, c.Kind, ctx)
}

func judgeC13(c csvHist, ctx *Ctx) error {
	return incremental(&source{csv: true, data: c.Doc.bytes()}, c.Steps, c.Kind, ctx)
}

// C12

func judgeCSV(c csvCase, ctx *Ctx) error {
	data := c.bytes()
	m := mustCSV(data)
	ctx.Labelf(c.CRLF, "crlf")
	ctx.Labelf(m.entries == 0, "no-rows")
	ctx.Labelf(m.entries >= 200, "rows>=200")
	ctx.Labelf(len(m.indexes) > 14, "slot-pages>=2")
	ctx.Labelf(c.Tail != "", "incomplete-tail")
	for _, x := range m.indexes {
		ctx.Label("type-" + typeNames[x.typ])
	}
	ctx.NT(m.values >= 5)
	mem := newMem(nil)
	src := &source{csv: true, data: data}
	f, err := src.open(mem)
	if err != nil {
		return err
	}
	if err := f.Synchronize(data); err != nil {
		return fmt.Errorf("valid data is refused: %w", err)
	}
	r, err := readIndex(mem.buf, true)
	if err != nil {
		return err
	}
	if err := compareIndex(r, m, data, cmpOpts{entries: true, csv: true}); err != nil {
		return err
	}
	return libCheck(f, m, data, handlers.CSVHandler{}, true, false, 40)
}

// C10

func judgeSearch(c docCase, ctx *Ctx) error {
	data := c.bytes()
	m := mustModel(data, c.Search)
	if m.collision {
		ctx.Label("skipped-collision")
		return nil
	}
	grams := 0
	for _, x := range m.indexes {
		if x.typ == tUni || x.typ == tBi || x.typ == tTri {
			grams += len(x.entries)
		}
	}
	ctx.Labelf(grams > 0, "n-grams")
	ctx.Labelf(grams > 500, "n-grams>500")
	ctx.Labelf(grams > 5000, "n-grams>5000")
	ctx.Labelf(m.wideGrams, "non-ascii-text")
	ctx.NT(grams >= 5)
	mem := newMem(nil)
	f, err := openJSONL(mem, c.Search)
	if err != nil {
		return err
	}
	if err := f.Synchronize(data); err != nil {
		return fmt.Errorf("valid data is refused: %w", err)
	}
	r, err := readIndex(mem.buf, false)
	if err != nil {
		return err
	}
	if err := compareIndex(r, m, data, cmpOpts{entries: true, grams: true}); err != nil {
		return err
	}
	return libCheck(f, m, data, handlers.JSONLHandler{}, false, true, 20)
}

// genSearchLong puts long phrases into searchable fields.
func genSearchLong(t *rapid.T) docCase {
	c := genDoc(docOpts{rows: 5, search: true})(t)
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "nlong"); i < n; i++ {
		b := genBig(t)
		b.Seed, b.Style = 6+7*(b.Seed%14), rapid.IntRange(0, 1).Draw(t, "place")
		at := rapid.IntRange(0, len(c.Items)).Draw(t, "at")
		c.Items = append(c.Items[:at], append([]docItem{b}, c.Items[at:]...)...)
		if f := c.Names[(int(b.Seed)+b.Style)%len(c.Names)]; len(c.Search) == 0 || rapid.IntRange(0, 3).Draw(t, "searched") > 0 {
			c.Search = append(c.Search, f)
		}
	}
	return c
}

// C29

func judgeTotals(c histCase, ctx *Ctx) error {
	src := &source{data: c.Doc.bytes(), search: c.Doc.Search}
	if src.collision() {
		ctx.Label("skipped-collision")
		return nil
	}
	all := src.model(len(src.data))
	histLabels(ctx, src, c.Steps, c.Kind, all)
	for _, x := range all.indexes {
		ctx.Labelf(x.total >= 128, "total>=128")
		ctx.Labelf(x.total >= 16384, "total>=16384")
	}
	ctx.Labelf(all.entries >= 128, "rows>=128")
	_, err := runHistory(src, c.Steps, c.Kind, ctx, func(i int, raw []byte, f *appendable.IndexFile, m *mFile, n int) error {
		if err := checkMeta(f, m, src); err != nil {
			return err
		}
		slots, err := libSlots(f)
		if err != nil {
			return err
		}
		if len(slots) != len(m.indexes) {
			return fmt.Errorf("%d indexes, want %d", len(slots), len(m.indexes))
		}
		for _, s := range slots {
			x := m.by[fmt.Sprintf("%d/%s", s.meta.FieldType, s.meta.FieldName)]
			if x == nil {
				return fmt.Errorf("index for %q/%d, which does not occur", s.meta.FieldName, s.meta.FieldType)
			}
			gram := x.typ == tUni || x.typ == tBi || x.typ == tTri
			if gram && m.wideGrams {
				continue
			}
			if s.meta.TotalFieldValueLength != x.total {
				return fmt.Errorf("index %q/%s records a total length of %d, want %d", x.name, typeNames[x.typ], s.meta.TotalFieldValueLength, x.total)
			}
		}
		return nil
	})
	return err
}

// totalsCase continues a history of many rows: its counts are set to what billions of
// earlier rows would have left behind.
type totalsCase struct {
	Doc    docCase `json:"doc"`
	At     int     `json:"at"`
	Add    []int   `json:"add"` // for the entry count and the indexes, in turn
	Less   []int   `json:"less"`
	Reopen bool    `json:"reopen"`
}

var bigCounts = []uint64{0, 127, 128, 255, 16383, 65535, 1 << 21, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 35, 1 << 40, 1<<53 + 1, 1 << 62}

func genTotals(t *rapid.T) totalsCase {
	c := totalsCase{Doc: genDoc(docOpts{rows: 10, bulk: 100, search: true})(t)}
	c.At = rapid.IntRange(0, 1000).Draw(t, "at")
	for i, n := 0, rapid.IntRange(1, 8).Draw(t, "n"); i < n; i++ {
		c.Add = append(c.Add, rapid.IntRange(0, len(bigCounts)-1).Draw(t, "add"))
		c.Less = append(c.Less, rapid.IntRange(0, 60).Draw(t, "less"))
	}
	c.Reopen = rapid.Bool().Draw(t, "reopen")
	return c
}

func (c *totalsCase) add(i int) uint64 {
	b := bigCounts[c.Add[i%len(c.Add)]]
	return b - min(b, uint64(c.Less[i%len(c.Less)]))
}

func judgeTotalsFar(c totalsCase, ctx *Ctx) error {
	src := &source{data: c.Doc.bytes(), search: c.Doc.Search}
	if src.collision() {
		ctx.Label("skipped-collision")
		return nil
	}
	m := src.model(len(src.data))
	cut := cutsOf(src.data, []histStep{{Line: c.At}})[0]
	mem := newMem(nil)
	f, err := src.open(mem)
	if err != nil {
		return err
	}
	if err := f.Synchronize(src.data[:cut:cut]); err != nil {
		return fmt.Errorf("synchronizing the first %d bytes: %w", cut, err)
	}
	meta, err := f.Metadata()
	if err != nil {
		return err
	}
	meta.Entries += c.add(0)
	if err := f.SetMetadata(meta); err != nil {
		return err
	}
	slots, err := libSlots(f)
	if err != nil {
		return err
	}
	later := 0
	added := map[string]uint64{}
	for i, s := range slots {
		key := fmt.Sprintf("%d/%s", s.meta.FieldType, s.meta.FieldName)
		if m.by[key] == nil {
			return fmt.Errorf("index for %q/%d, which does not occur", s.meta.FieldName, s.meta.FieldType)
		}
		before := s.meta.TotalFieldValueLength
		if m.by[key].total > before {
			later++
		}
		added[key] = c.add(i + 1)
		s.meta.TotalFieldValueLength = before + added[key]
		if err := s.page.MarshalMetadata(s.meta); err != nil {
			return fmt.Errorf("storing the total of %q: %w", s.meta.FieldName, err)
		}
	}
	if c.Reopen {
		if f, err = src.open(mem); err != nil {
			return fmt.Errorf("reopen: %w", err)
		}
	}
	if err := f.Synchronize(src.data); err != nil {
		return fmt.Errorf("synchronizing the rest: %w", err)
	}
	ctx.Labelf(later > 0, "large-totals-continued")
	ctx.NT(later > 0 && m.values >= 3)
	m.entries += c.add(0)
	if err := checkMeta(f, m, src); err != nil {
		return err
	}
	if slots, err = libSlots(f); err != nil {
		return err
	}
	if len(slots) != len(m.indexes) {
		return fmt.Errorf("%d indexes, want %d", len(slots), len(m.indexes))
	}
	for _, s := range slots {
		key := fmt.Sprintf("%d/%s", s.meta.FieldType, s.meta.FieldName)
		x := m.by[key]
		if x == nil {
			return fmt.Errorf("index for %q, which does not occur", key)
		}
		if gram := x.typ == tUni || x.typ == tBi || x.typ == tTri; gram && m.wideGrams {
			continue
		}
		if want := x.total + added[key]; s.meta.TotalFieldValueLength != want {
			return fmt.Errorf("index %q/%s records a total length of %d, want %d", x.name, typeNames[x.typ], s.meta.TotalFieldValueLength, want)
		}
	}
	return nil
}

// C09

type failCase struct {
	Doc    docCase  `json:"doc"`
	First  int      `json:"first"`  // per mille of the lines synchronized first, -1 none
	At     int      `json:"at"`     // per mille: position of the suspicious row among the rest
	Bad    string   `json:"bad"`    // the suspicious row
	After  bool     `json:"after"`  // keep the rest of the rows after it
	Fix    string   `json:"fix"`    // what it is replaced with afterwards
	Reopen bool     `json:"reopen"` // reopen before the failing call
	Cut    bool     `json:"cut"`    // the data file is shorter than what was indexed
	Names  []string `json:"-"`
}

var badPool = []string{"", " ", "[1]", "null", "1", `"x"`, "true", `{"a":1`, `{"a":}`, `{"a" 1}`, `{a:1}`, `{"a":1,}`, `{,}`, `{"a":1} x`, `{"a":1}{"b":2}`, `{"a":1},`, `{"a":01}`,
	`{"a":"\x"}`, `{"a":tru}`, `{'a':1}`, `{"a":1e999}`, `{"a":[1,2}`, `{"a":{"b":1}`, `{"a":[1,]}`, `{"a":[,1]}`, `{"a":1 "b":2}`, `{"a":1]`, `}`, `{`, `{"a"}`, `{1:2}`, `{"a":.5}`, `{"a":1.}`, `{"a":+1}`,
	`{"a":"\u12"}`, `{"a":-}`, `{"a":1e}`, `{"a":nul}`, `{"a":"x`, `{"a":"` + "\x01" + `"}`, "{\"a\":1}\x00", `{"a":1}}`, `{"a":[}`, `{"a"::1}`, `{"a":1,,"b":2}`, `{"a":NaN}`, `{"a":Infinity}`, `{"a":0x10}`, `// {}`, "\ufeff{}"}

func genFail(t *rapid.T) failCase {
	return genFailOf(t, docOpts{rows: 10, bulk: 60, search: true, noTail: true})
}

func genFailMany(t *rapid.T) failCase {
	return genFailOf(t, docOpts{rows: 3, bulk: 2000, noTail: true})
}

func genFailOf(t *rapid.T, o docOpts) failCase {
	c := failCase{Doc: genDoc(o)(t)}
	r := rapidRng{t}
	c.First = rapid.IntRange(-1, 1000).Draw(t, "first")
	c.At = rapid.IntRange(0, 1000).Draw(t, "at")
	c.After, c.Reopen = rapid.Bool().Draw(t, "after"), rapid.Bool().Draw(t, "reopen")
	st := c.Doc.style(0)
	switch weighted(t, "bad", 4, 5, 1, 1) {
	case 0:
		c.Bad = badPool[r.n(len(badPool))]
	case 1: // a valid row with one edit
		row := genRow(r, &st)
		p := r.n(len(row) + 1)
		switch r.n(3) {
		case 0:
			row = row[:p]
		case 1:
			if p < len(row) {
				row = row[:p] + row[p+1:]
			}
		default:
			row = row[:p] + string(`{}[],:"0.e-tn x`[r.n(15)]) + row[p:]
		}
		c.Bad = strings.ToValidUTF8(strings.ReplaceAll(row, "\n", ""), "?")
	case 2: // a field name at the limit of a slot
		c.Bad = fmt.Sprintf(`{"a":{%q:1}}`, strings.Repeat("n", rapid.IntRange(220, 300).Draw(t, "len")))
	case 3:
		c.Cut = true
	}
	c.Fix = genRow(r, &st)
	return c
}

const maxFieldName = 236

func longName(line string) bool {
	occs, err := parseRow([]byte(line))
	if err != nil {
		return false
	}
	for _, o := range occs {
		if len(o.path) > maxFieldName {
			return true
		}
	}
	return false
}

func judgeFail(c failCase, ctx *Ctx) error {
	lines := c.Doc.lines()
	nf := 0
	if c.First >= 0 {
		nf = len(lines) * c.First / 1000
	}
	at := nf + (len(lines)-nf)*c.At/1000
	join := func(ls []string) []byte {
		var b bytes.Buffer
		for _, l := range ls {
			b.WriteString(l + "\n")
		}
		return b.Bytes()
	}
	with := func(x string) []byte {
		ls := append(append([]string{}, lines[:at]...), x)
		if c.After {
			ls = append(ls, lines[at:]...)
		}
		return join(ls)
	}
	search := c.Doc.Search
	good := with(c.Fix)
	gm := mustModel(good, search)
	if gm.collision || mustModel(join(lines), search).collision {
		ctx.Label("skipped-collision")
		return nil
	}
	mem := newMem(nil)
	f, err := openJSONL(mem, search)
	if err != nil {
		return err
	}
	first := join(lines[:nf])
	fm := mustModel(first, search)
	if c.First >= 0 {
		if err := f.Synchronize(first); err != nil {
			return fmt.Errorf("valid data is refused: %w", err)
		}
	}
	if c.Reopen {
		if f, err = openJSONL(mem, search); err != nil {
			return err
		}
	}
	before := mem.snapshot()
	bad := with(c.Bad)
	expectErr := false
	if c.Cut {
		if len(first) == 0 {
			return nil
		}
		bad = first[:len(first)*c.At/1001]
		expectErr = true
		ctx.Label("shrunk-data-file")
	} else {
		_, err := parseRow([]byte(c.Bad))
		long := longName(c.Bad)
		expectErr = err != nil || long
		ctx.Labelf(err != nil, "invalid-row")
		ctx.Labelf(long, "long-name")
	}
	if !expectErr {
		// the edited row is still valid: it must be indexed
		ctx.Label("still-valid")
		bm := mustModel(bad, search)
		if bm.collision {
			return nil
		}
		if err := f.Synchronize(bad); err != nil {
			return fmt.Errorf("valid row %q is refused: %w", c.Bad, err)
		}
		r, err := readIndex(mem.buf, false)
		if err != nil {
			return err
		}
		return compareIndex(r, bm, bad, cmpAll)
	}
	ctx.Labelf(nf > 0, "earlier-rows")
	ctx.Labelf(at > nf, "valid-rows-before-it")
	ctx.NT(nf > 0 || at > nf)
	if err := f.Synchronize(bad); err == nil {
		return fmt.Errorf("row %q is accepted (or a shrunk data file: %v)", c.Bad, c.Cut)
	}
	check := func(f *appendable.IndexFile) error {
		if err := checkMeta(f, fm, &source{}); err != nil {
			return fmt.Errorf("after the failed synchronization: %w", err)
		}
		return libCheck(f, fm, bad, handlers.JSONLHandler{}, false, true, 20)
	}
	if c.Cut {
		bad = first
	}
	if err := check(f); err != nil {
		return err
	}
	if !bytes.Equal(before, mem.buf) {
		return fmt.Errorf("the failed synchronization changed the stored index (row %q)", c.Bad)
	}
	g, err := openJSONL(mem, search)
	if err != nil {
		return fmt.Errorf("opening after a failed synchronization: %w", err)
	}
	if err := check(g); err != nil {
		return err
	}
	// once the row is corrected the same file is completed, by the open handle or a new one
	if c.At%2 == 0 {
		g = f
	}
	if err := g.Synchronize(good); err != nil {
		return fmt.Errorf("synchronizing the corrected data: %w", err)
	}
	r, err := readIndex(mem.buf, false)
	if err != nil {
		return err
	}
	return compareIndex(r, gm, good, cmpAll)
}

type csvFail struct {
	Doc    csvCase `json:"doc"`
	First  int     `json:"first"`
	At     int     `json:"at"`
	Extra  int     `json:"extra"`
	Long   bool    `json:"long"` // a column name that does not fit
	Reopen bool    `json:"reopen"`
	Cut    int     `json:"cut,omitempty"` // the data file has lost that many bytes of what was indexed
}

func genCSVFail(t *rapid.T) csvFail {
	return genCSVFailOf(t, docOpts{rows: 10, bulk: 60, noTail: true})
}

func genCSVFailMany(t *rapid.T) csvFail {
	return genCSVFailOf(t, docOpts{rows: 3, bulk: 2000, noTail: true})
}

func genCSVFailOf(t *rapid.T, o docOpts) csvFail {
	return csvFail{Doc: genCSV(o)(t), First: rapid.IntRange(-1, 1000).Draw(t, "first"), At: rapid.IntRange(0, 1000).Draw(t, "at"),
		Extra: rapid.IntRange(0, 6).Draw(t, "extra"), Long: rapid.IntRange(0, 9).Draw(t, "long") == 0, Reopen: rapid.Bool().Draw(t, "reopen"),
		Cut: []int{0, 0, 0, 0, 0, 1, rapid.IntRange(1, 40).Draw(t, "cutn"), 1 << 30}[rapid.IntRange(0, 7).Draw(t, "cut")]}
}

func judgeCSVFail(c csvFail, ctx *Ctx) error {
	lines := c.Doc.lines()
	nf := 0
	if c.First >= 0 {
		nf = len(lines) * c.First / 1000
	}
	if c.Long {
		nf = 0
		lines[0] += "," + strings.Repeat("n", 237)
	}
	at := max(1, nf+(len(lines)-nf)*c.At/1000)
	join := func(ls []string) []byte { return []byte(strings.Join(append(append([]string{}, ls...), ""), "\n")) }
	badRow := "x" + strings.Repeat(",y", len(c.Doc.Head)-1+c.Extra)
	switch c.Extra {
	case 0:
		badRow = "" // an empty line
	case 4, 5, 6: // broken quotes
		badRow = []string{`"x`, `x"y`, `"x"y`}[c.Extra-4]
	}
	if c.Long && c.Extra == 0 {
		badRow = "x"
	}
	bad := join(append(append(append([]string{}, lines[:at]...), badRow), lines[at:]...))
	cut := c.Cut > 0 && nf > 0 && !c.Long
	if cut {
		first := join(lines[:nf])
		bad = first[:max(0, len(first)-c.Cut)]
		badRow = fmt.Sprintf("(a data file of %d of %d indexed bytes)", len(bad), len(first))
	}
	src := &source{csv: true}
	mem := newMem(nil)
	f, err := src.open(mem)
	if err != nil {
		return err
	}
	var first []byte
	if nf > 0 {
		first = join(lines[:nf])
		if err := f.Synchronize(first); err != nil {
			return fmt.Errorf("valid data is refused: %w", err)
		}
	}
	if c.Reopen {
		if f, err = src.open(mem); err != nil {
			return err
		}
	}
	fm := mustCSV(first)
	before := mem.snapshot()
	ctx.Labelf(nf > 0, "earlier-rows")
	ctx.Labelf(c.Long, "long-name")
	ctx.Labelf(badRow == "", "empty-line")
	ctx.Labelf(c.Extra > 3 && !cut, "broken-quotes")
	ctx.Labelf(cut, "shrunk-data-file")
	ctx.NT(nf > 1 || at > 1)
	if err := f.Synchronize(bad); err == nil {
		return fmt.Errorf("invalid row %q is accepted", badRow)
	}
	if err := checkMeta(f, fm, src); err != nil {
		return fmt.Errorf("after the failed synchronization: %w", err)
	}
	if err := libCheck(f, fm, first, handlers.CSVHandler{}, true, false, 20); err != nil {
		return err
	}
	if !bytes.Equal(before, mem.buf) {
		return fmt.Errorf("the failed synchronization changed the stored index (row %q)", badRow)
	}
	if f, err = src.open(mem); err != nil {
		return fmt.Errorf("opening after a failed synchronization: %w", err)
	}
	if c.Long {
		return nil
	}
	good := join(lines)
	if err := f.Synchronize(good); err != nil {
		return fmt.Errorf("synchronizing the corrected data: %w", err)
	}
	r, err := readIndex(mem.buf, true)
	if err != nil {
		return err
	}
	return compareIndex(r, mustCSV(good), good, cmpOpts{order: true, meta: true, entries: true, csv: true})
}

// C14

type openCase struct {
	Doc     docCase    `json:"doc"`
	CSV     csvCase    `json:"csv"`
	UseCSV  bool       `json:"useCSV"`
	Empty   bool       `json:"empty"`
	Steps   []histStep `json:"steps"`
	Version int        `json:"version"`
	Format  int        `json:"format"`
	Reopens int        `json:"reopens"`
}

func genOpen(t *rapid.T) openCase {
	c := openCase{UseCSV: rapid.IntRange(0, 2).Draw(t, "csv") == 0, Empty: rapid.IntRange(0, 5).Draw(t, "empty") == 0}
	o := docOpts{rows: 10, bulk: 60, search: true}
	if c.UseCSV {
		c.CSV = genCSV(o)(t)
	} else {
		c.Doc = genDoc(o)(t)
	}
	c.Steps = genSteps(t, rapid.IntRange(0, 2).Draw(t, "nsteps"))
	c.Version, c.Format = rapid.IntRange(0, 255).Draw(t, "version"), rapid.IntRange(0, 255).Draw(t, "format")
	c.Reopens = rapid.IntRange(1, 4).Draw(t, "reopens")
	return c
}

func judgeOpen(c openCase, ctx *Ctx) error {
	src := &source{csv: c.UseCSV, search: c.Doc.Search}
	other := &source{csv: !c.UseCSV}
	if c.UseCSV {
		src.data = c.CSV.bytes()
	} else {
		src.data = c.Doc.bytes()
	}
	if c.Empty {
		src.data = nil
	}
	if src.collision() {
		return nil
	}
	// a fresh index
	mem := newMem(nil)
	f, err := src.open(mem)
	if err != nil {
		return err
	}
	if err := checkMeta(f, &mFile{}, src); err != nil {
		return fmt.Errorf("fresh index: %w", err)
	}
	if e, err := f.IsEmpty(); err != nil || !e {
		return fmt.Errorf("fresh index: IsEmpty gives %v, %v", e, err)
	}
	if _, err := f.Indexes(); !errors.Is(err, io.EOF) {
		return fmt.Errorf("fresh index: the first index slot gives %v, want the end", err)
	}
	if len(c.Steps) > 0 { // an index that was only created
		b := mem.snapshot()
		g, err := src.open(mem)
		if err != nil {
			return fmt.Errorf("reopening a fresh index: %w", err)
		}
		if !bytes.Equal(b, mem.buf) {
			return errors.New("reopening a fresh index changed it")
		}
		if err := checkMeta(g, &mFile{}, src); err != nil {
			return fmt.Errorf("reopened fresh index: %w", err)
		}
	}
	raw, err := runHistory(src, c.Steps, kMem, ctx, nil)
	if err != nil {
		return err
	}
	m := src.model(len(src.data))
	ctx.Labelf(len(m.indexes) == 0, "no-indexes")
	ctx.Labelf(c.UseCSV, "csv")
	ctx.Labelf(!c.UseCSV, "jsonl")
	ctx.NT(len(m.indexes) > 0)
	mem = newMem(raw)
	for i := 0; i < c.Reopens; i++ {
		f, err := src.open(mem)
		if err != nil {
			return fmt.Errorf("opening a valid index: %w", err)
		}
		if err := checkMeta(f, m, src); err != nil {
			return fmt.Errorf("opened index: %w", err)
		}
		e, err := f.IsEmpty()
		if err != nil || e != (len(m.indexes) == 0) {
			return fmt.Errorf("IsEmpty gives %v, %v for an index of %d fields", e, err, len(m.indexes))
		}
		slots, err := libSlots(f)
		if err != nil {
			return err
		}
		if len(slots) != len(m.indexes) {
			return fmt.Errorf("%d indexes after opening, want %d", len(slots), len(m.indexes))
		}
		names, err := f.IndexFieldNames()
		if err != nil {
			return err
		}
		var want []string
		seen := map[string]bool{}
		for _, x := range m.indexes {
			if !seen[x.name] {
				seen[x.name] = true
				want = append(want, x.name)
			}
		}
		if len(names) != len(want) || (len(want) > 0 && !reflect.DeepEqual(names, want)) {
			return fmt.Errorf("field names %q, want %q", names, want)
		}
		if !bytes.Equal(raw, mem.buf) {
			return errors.New("opening and reading a valid index changed it")
		}
	}
	refuse := func(what string, s *source, b []byte) error {
		mem := newMem(b)
		if _, err := s.open(mem); err == nil {
			return fmt.Errorf("%s is accepted", what)
		}
		if !bytes.Equal(b, mem.buf) {
			return fmt.Errorf("%s: the file was modified", what)
		}
		return nil
	}
	if err := refuse("the other format", other, raw); err != nil {
		return err
	}
	if err := refuse("a file that is not whole pages", src, raw[:len(raw)-1-c.Version]); err != nil {
		return err
	}
	if c.Version != appendable.CurrentVersion {
		b := append([]byte{}, raw...)
		b[4096+9+13] = byte(c.Version)
		if err := refuse(fmt.Sprintf("version %d", c.Version), src, b); err != nil {
			return err
		}
	}
	if c.Format != int(src.handler().Format()) {
		b := append([]byte{}, raw...)
		b[4096+9+14] = byte(c.Format)
		if err := refuse(fmt.Sprintf("format %d", c.Format), src, b); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	register("C07", "the document has at least 5 indexed values",
		sub("doc", 12000, 200000, genDoc(docOpts{rows: 14, bulk: 0}), judgeJSONL),
		sub("bulk", 800, 16000, genDoc(docOpts{rows: 4, bulk: 1600}), judgeJSONL),
		sub("far", 600, 8000, genFar(false), judgeFar),
	)
	register("C08", "at least one cut before the end and at least 3 indexed values",
		sub("hist", 4000, 80000, genHist(docOpts{rows: 12, search: true}, 5), judgeC08),
		sub("bulk", 240, 6000, genHist(docOpts{rows: 4, bulk: 1200, search: true}, 5), judgeC08),
	)
	register("C09", "an invalid row with valid rows before it",
		sub("jsonl", 6000, 120000, genFail, judgeFail),
		sub("csv", 3000, 60000, genCSVFail, judgeCSVFail),
		sub("jsonl-many", 240, 5000, genFailMany, judgeFail),
		sub("csv-many", 240, 5000, genCSVFailMany, judgeCSVFail),
	)
	register("C10", "at least 5 n-grams are indexed",
		sub("search", 4000, 80000, genDoc(docOpts{rows: 12, search: true}), judgeSearch),
		sub("bulk", 300, 6000, genDoc(docOpts{rows: 4, bulk: 300, search: true}), judgeSearch),
		sub("long", 160, 3000, genSearchLong, judgeSearch),
		finding("expanding-characters", func(ctx *Ctx) error { return judgeSearch0(expanding(), ctx) }),
	)
	register("C12", "the document has at least 5 indexed values",
		sub("doc", 8000, 160000, genCSV(docOpts{rows: 14}), judgeCSV),
		sub("bulk", 600, 12000, genCSV(docOpts{rows: 4, bulk: 1600}), judgeCSV),
		sub("far", 400, 6000, genFar(true), judgeFar),
	)
	register("C13", "at least one cut before the end and at least 3 indexed values",
		sub("hist", 4000, 80000, genCSVHist(docOpts{rows: 12}, 5), judgeC13),
		sub("bulk", 300, 6000, genCSVHist(docOpts{rows: 4, bulk: 1200}, 5), judgeC13),
	)
	register("C14", "the index has at least one field index",
		sub("open", 5000, 100000, genOpen, judgeOpen),
	)
	register("C29", "at least one cut before the end and at least 3 indexed values",
		sub("hist", 4000, 80000, genHist(docOpts{rows: 12, search: true}, 4), judgeTotals),
		sub("bulk", 400, 8000, genHist(docOpts{rows: 4, bulk: 1200, search: true}, 4), judgeTotals),
		sub("far", 1600, 30000, genTotals, judgeTotalsFar),
	)
}

// expanding is a valid document in which two n-grams of different rows get the same key:
// the offsets of n-grams count the code points of the decomposed text.
func expanding() docCase {
	v := strings.Repeat("\u33af", 12) // rad/s2: 3 bytes, 6 code points
	row := `{"a":"` + v + `"}   `
	return docCase{Names: []string{"a"}, Items: []docItem{{Row: row}, {Row: row}}, Search: []string{"a"}}
}

func judgeSearch0(c docCase, ctx *Ctx) error {
	data := c.bytes()
	m := mustModel(data, c.Search)
	if !m.collision {
		panic(harnessError{errors.New("the document has no collision")})
	}
	mem := newMem(nil)
	f, err := openJSONL(mem, c.Search)
	if err != nil {
		return err
	}
	if err := f.Synchronize(data); err != nil {
		return fmt.Errorf("valid data is refused: %w", err)
	}
	return nil
}

// ---- far data: the same, with billions of bytes of data already indexed ----

type farCase struct {
	Doc  *docCase `json:"doc,omitempty"`
	CSV  *csvCase `json:"csv,omitempty"`
	At   int      `json:"at"`   // per mille of the lines before the leap
	Data int      `json:"data"` // which leap in the data
	File int      `json:"file"` // and in the index file
}

func genFar(csv bool) func(t *rapid.T) farCase {
	return func(t *rapid.T) farCase {
		var c farCase
		if csv {
			d := genCSV(docOpts{rows: 10, bulk: 60})(t)
			c.CSV = &d
		} else {
			d := genDoc(docOpts{rows: 10, bulk: 60, search: true})(t)
			c.Doc = &d
		}
		c.At = rapid.IntRange(0, 1000).Draw(t, "at")
		c.Data = rapid.IntRange(0, len(leaps)-1).Draw(t, "data")
		c.File = rapid.IntRange(0, len(leaps)-1).Draw(t, "file")
		return c
	}
}

// judgeFar synchronizes the first rows, makes the data and the index file as large as if
// billions of bytes of rows without fields had followed, and synchronizes the others.
func judgeFar(c farCase, ctx *Ctx) error {
	src := &source{}
	if c.CSV != nil {
		src.csv, src.data = true, c.CSV.bytes()
	} else {
		src.data, src.search = c.Doc.bytes(), c.Doc.Search
	}
	if src.collision() {
		ctx.Label("skipped-collision")
		return nil
	}
	cut := cutsOf(src.data, []histStep{{Line: c.At}})[0]
	if src.csv && cut == 0 {
		if cut = bytes.IndexByte(src.data, '\n') + 1; cut == 0 {
			return nil
		}
	}
	n := leaps[c.Data] + 17
	data, region := farData(src.data, cut, n)
	if region == nil {
		ctx.Label("no-address-space")
		return nil
	}
	defer unix.Munmap(region)

	m := src.model(len(src.data))
	shift := func(o uint64) uint64 {
		if o >= uint64(cut) {
			return o + uint64(n)
		}
		return o
	}
	m.readOffset = shift(m.readOffset)
	later := 0
	for _, x := range m.indexes {
		for i := range x.entries {
			e := &x.entries[i]
			if e.row.O >= uint64(cut) {
				later++
			}
			e.keyOff, e.row.O = shift(e.keyOff), shift(e.row.O)
		}
	}
	ctx.Labelf(later > 0, "far-values")
	ctx.NT(later >= 5)

	mem := newMem(nil)
	defer mem.release()
	f, err := syncFar(src, mem, data, cut, n, leaps[c.File])
	if err != nil {
		return err
	}
	ctx.Labelf(mem.hole > 0, "far-pages")
	r, err := readFar(mem.buf, src.csv, mem.hole)
	if err != nil {
		return err
	}
	if err := compareIndex(r, m, data, cmpOpts{meta: true, entries: true, csv: src.csv, grams: true}); err != nil {
		return err
	}
	return libCheck(f, m, data, src.handler().(bptree.DataParser), src.csv, true, 20)
}

// farData puts n zero bytes into data at cut.
func farData(data []byte, cut int, n int64) (far, region []byte) {
	if region = reserve(); region == nil {
		return nil, nil
	}
	copy(region, data[:cut])
	copy(region[int64(cut)+n:], data[cut:])
	return region[:int64(len(data))+n], region
}

func syncFar(src *source, mem *memFile, data []byte, cut int, n, file int64) (*appendable.IndexFile, error) {
	f, err := src.open(mem)
	if err != nil {
		return nil, err
	}
	if err := f.Synchronize(data[:cut]); err != nil {
		return nil, fmt.Errorf("the first %d bytes are refused: %w", cut, err)
	}
	meta, err := f.Metadata()
	if err != nil {
		return nil, err
	}
	if meta.ReadOffset != uint64(cut) {
		return nil, fmt.Errorf("recorded position %d of %d", meta.ReadOffset, cut)
	}
	meta.ReadOffset += uint64(n)
	if err := f.SetMetadata(meta); err != nil {
		return nil, err
	}
	mem.leap(file)
	if f, err = src.open(mem); err != nil {
		return nil, fmt.Errorf("reopen: %w", err)
	}
	if err := f.Synchronize(data); err != nil {
		return nil, fmt.Errorf("rows from %d on are refused: %w", int64(cut)+n, err)
	}
	return f, nil
}
