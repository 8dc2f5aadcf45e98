package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/pointer"
	"pgregory.net/rapid"
)

// ---- C36: the index file as a store of field indexes ----

type ifOp struct {
	Kind string `json:"kind"`
	Name string `json:"name,omitempty"`
	Hex  []byte `json:"hex,omitempty"` // a name that is not text
	Type byte   `json:"type,omitempty"`
	Pick int    `json:"pick,omitempty"`
	N    int    `json:"n,omitempty"`
	V    uint64 `json:"v,omitempty"`
}

type ifCase struct {
	CSV    bool     `json:"csv,omitempty"`
	Search []string `json:"search,omitempty"`
	Ops    []ifOp   `json:"ops"`
}

var ifNames = []string{"", "a", "b", "A", "aa", "ab", "a.b", "a.b.c", ".", "a\x00", "\x00", "é", "日本", "a b", " a", "name", "names", "nam",
	strings.Repeat("x", 235), strings.Repeat("x", 236), strings.Repeat("x", 235) + "y", strings.Repeat("x", 237), strings.Repeat("y", 400), strings.Repeat("é", 118), strings.Repeat("é", 119)}

func genIfCase(t *rapid.T) ifCase {
	c := ifCase{CSV: rapid.Bool().Draw(t, "csv")}
	if rapid.Bool().Draw(t, "search?") {
		c.Search = rapid.SliceOfN(rapid.SampledFrom(ifNames), 0, 4).Draw(t, "search")
	}
	types := rapid.IntRange(1, 11).Draw(t, "types")
	many := rapid.IntRange(0, 4).Draw(t, "many") == 0
	n := rapid.IntRange(1, 30).Draw(t, "n")
	for i := 0; i < n; i++ {
		op := ifOp{Kind: []string{"find", "find", "find", "find", "again", "insert", "total", "file", "reopen"}[rapid.IntRange(0, 8).Draw(t, "kind")]}
		switch op.Kind {
		case "find":
			op.Type = byte(rapid.IntRange(0, types).Draw(t, "type"))
			switch rapid.IntRange(0, 5).Draw(t, "nk") {
			case 0:
				op.Hex = rapid.SliceOfN(rapid.Byte(), 0, 240).Draw(t, "hex")
			case 1:
				op.Name = rapid.StringMatching(`[ab.]{0,4}`).Draw(t, "name")
			default:
				op.Name = rapid.SampledFrom(ifNames).Draw(t, "name")
			}
			if many {
				op.N = rapid.IntRange(0, 20).Draw(t, "more")
			}
		case "again":
			op.Pick = rapid.IntRange(0, 1000).Draw(t, "pick")
		case "insert":
			op.Pick = rapid.IntRange(0, 1000).Draw(t, "pick")
			op.N = []int{1, 3, rapid.IntRange(1, 12).Draw(t, "n"), 300}[rapid.IntRange(0, 3).Draw(t, "nk")]
			op.V = rapid.Uint64Range(0, 1<<20).Draw(t, "v")
		case "total", "file":
			op.Pick = rapid.IntRange(0, 1000).Draw(t, "pick")
			k := rapid.IntRange(0, 64).Draw(t, "bits")
			op.V = rapid.Uint64().Draw(t, "v")
			if k < 64 {
				op.V &= 1<<k - 1
			}
			op.N = rapid.IntRange(0, 1<<20).Draw(t, "offset")
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type ifIndex struct {
	name    string
	typ     appendable.FieldType
	width   uint16
	total   uint64
	entries map[uint64]pointer.MemoryPointer
	slot    *linkedpage.LinkedPage
}

func ifWidth(t appendable.FieldType) uint16 {
	switch t {
	case appendable.FieldTypeFloat64, appendable.FieldTypeInt64, appendable.FieldTypeUint64:
		return 9
	case appendable.FieldTypeTrigram:
		return 4
	case appendable.FieldTypeBigram:
		return 3
	case appendable.FieldTypeUnigram, appendable.FieldTypeBoolean:
		return 2
	case appendable.FieldTypeNull:
		return 1
	}
	return 0
}

func judgeIndexFile(c ifCase, ctx *Ctx) error {
	st := newMem(nil)
	var h appendable.DataHandler = handlers.JSONLHandler{}
	if c.CSV {
		h = handlers.CSVHandler{}
	}
	var f *appendable.IndexFile
	open := func() (err error) {
		f, err = appendable.NewIndexFile(st, h, c.Search)
		return err
	}
	if err := open(); err != nil {
		return err
	}
	var model []*ifIndex
	file := appendable.FileMeta{Version: appendable.CurrentVersion, Format: h.Format()}
	// the tree of an index, holding 8-byte values whatever the declared width is
	tree := func(s *linkedpage.LinkedPage) *bptree.BPTree { return s.BPTree(&bptree.BPTree{Width: 9}) }
	key := func(v uint64) pointer.ReferencedValue {
		return pointer.ReferencedValue{Value: binary.BigEndian.AppendUint64(nil, v)}
	}
	meta := func(x *ifIndex) appendable.IndexMeta {
		return appendable.IndexMeta{FieldName: x.name, FieldType: x.typ, Width: x.width, TotalFieldValueLength: x.total}
	}
	find := func(name string, typ appendable.FieldType) error {
		var want *ifIndex
		for _, x := range model {
			if x.name == name && x.typ == typ {
				want = x
			}
		}
		before := st.snapshot()
		slot, m, err := f.FindOrCreateIndex(name, typ)
		if want == nil && len(name) > appendable.MaxFieldNameLength {
			if err == nil {
				return fmt.Errorf("a name of %d bytes is accepted", len(name))
			}
			ctx.Label("name-too-long")
			if !bytes.Equal(before, st.buf) {
				return errors.New("refusing a name changed the file: " + firstDiff(before, st.buf))
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("index %q of type %d: %w", name, typ, err)
		}
		if slot == nil || m == nil {
			return fmt.Errorf("index %q of type %d: nothing is returned", name, typ)
		}
		if want == nil {
			want = &ifIndex{name: name, typ: typ, width: ifWidth(typ), entries: map[uint64]pointer.MemoryPointer{}, slot: slot}
			model = append(model, want)
		} else if !bytes.Equal(before, st.buf) {
			return fmt.Errorf("finding index %q of type %d changed the file: %s", name, typ, firstDiff(before, st.buf))
		}
		if *m != meta(want) {
			return fmt.Errorf("index %q of type %d has metadata %+v, want %+v", name, typ, *m, meta(want))
		}
		want.slot = slot
		return checkTree(tree(slot), want)
	}
	verify := func() error {
		before := st.snapshot()
		m, err := f.Metadata()
		if err != nil {
			return err
		}
		if *m != file {
			return fmt.Errorf("file metadata %+v, want %+v", *m, file)
		}
		e, err := f.IsEmpty()
		if err != nil || e != (len(model) == 0) {
			return fmt.Errorf("IsEmpty gives %v, %v with %d indexes", e, err, len(model))
		}
		names, err := f.IndexFieldNames()
		if err != nil {
			return err
		}
		var want []string
		seen := map[string]bool{}
		for _, x := range model {
			if !seen[x.name] {
				seen[x.name] = true
				want = append(want, x.name)
			}
		}
		if len(names)+len(want) > 0 && !reflect.DeepEqual(names, want) {
			return fmt.Errorf("field names %q, want %q", names, want)
		}
		for _, n := range append(ifNames, want...) {
			in := false
			for _, s := range c.Search {
				in = in || s == n
			}
			if f.IsSearch(n) != in {
				return fmt.Errorf("IsSearch(%q) is %v with the list %q", n, !in, c.Search)
			}
		}
		slot, err := f.Indexes()
		for i := 0; ; i++ {
			if errors.Is(err, io.EOF) {
				if i != len(model) {
					return fmt.Errorf("%d indexes are listed, want %d", i, len(model))
				}
				break
			}
			if err != nil {
				return err
			}
			if i >= len(model) {
				return fmt.Errorf("more than %d indexes are listed", i)
			}
			var m appendable.IndexMeta
			if err := slot.UnmarshalMetadata(&m); err != nil {
				return err
			}
			if m != meta(model[i]) {
				return fmt.Errorf("index %d has metadata %+v, want %+v", i, m, meta(model[i]))
			}
			if err := checkTree(tree(slot), model[i]); err != nil {
				return err
			}
			slot, err = slot.Next()
		}
		if !bytes.Equal(before, st.buf) {
			return errors.New("reading the index changed it: " + firstDiff(before, st.buf))
		}
		return nil
	}
	again, reopened, deep := 0, false, false
	for i, op := range c.Ops {
		err := func() error {
			switch op.Kind {
			case "find":
				name := op.Name
				if op.Hex != nil {
					name = string(op.Hex)
				}
				if err := find(name, appendable.FieldType(op.Type)); err != nil {
					return err
				}
				for k := 0; k < op.N; k++ {
					if err := find(fmt.Sprintf("%s%d", name[:min(len(name), 5)], k), appendable.FieldType(op.Type)); err != nil {
						return err
					}
				}
			case "again":
				if len(model) > 0 {
					x := model[op.Pick%len(model)]
					again++
					return find(x.name, x.typ)
				}
			case "insert":
				if len(model) == 0 {
					return nil
				}
				x := model[op.Pick%len(model)]
				for k := 0; k < op.N; k++ {
					v := (op.V + uint64(k)*7919) % (1 << 21)
					if _, ok := x.entries[v]; ok {
						continue
					}
					p := pointer.MemoryPointer{Offset: v ^ uint64(op.Pick), Length: uint32(k + 1)}
					if err := tree(x.slot).Insert(key(v), p); err != nil {
						return fmt.Errorf("insert into %q: %w", x.name, err)
					}
					x.entries[v] = p
				}
				deep = deep || len(x.entries) > 250
			case "total":
				if len(model) == 0 {
					return nil
				}
				x := model[op.Pick%len(model)]
				x.total = op.V
				m := meta(x)
				return x.slot.MarshalMetadata(&m)
			case "file":
				file.ReadOffset, file.Entries = uint64(op.N), op.V
				m := file
				return f.SetMetadata(&m)
			case "reopen":
				before := st.snapshot()
				if err := open(); err != nil {
					return err
				}
				if !bytes.Equal(before, st.buf) {
					return errors.New("opening changed the file")
				}
				reopened = true
				for _, x := range model {
					slot, _, err := f.FindOrCreateIndex(x.name, x.typ)
					if err != nil {
						return err
					}
					x.slot = slot
				}
			}
			return nil
		}()
		if err == nil {
			err = verify()
		}
		if err != nil {
			return fmt.Errorf("op %d (%s): %w", i, op.Kind, err)
		}
	}
	ctx.Labelf(len(model) > 15, "two-slot-pages")
	ctx.Labelf(deep, "split-tree")
	ctx.Labelf(reopened, "reopened")
	ctx.Labelf(again > 0, "found-again")
	full := 0
	for _, x := range model {
		if len(x.entries) > 0 {
			full++
		}
	}
	ctx.NT(len(model) > 1 && full > 0)
	return nil
}

// checkTree compares a tree's entries with those of the model.
func checkTree(t *bptree.BPTree, x *ifIndex) error {
	it, err := t.Iter(pointer.ReferencedValue{})
	if err != nil {
		return err
	}
	keys := make([]uint64, 0, len(x.entries))
	for v := range x.entries {
		keys = append(keys, v)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	i := 0
	for ; it.Next(); i++ {
		if i >= len(keys) {
			return fmt.Errorf("index %q of type %d has more than %d entries", x.name, x.typ, i)
		}
		if v := it.Key().Value; len(v) != 8 || binary.BigEndian.Uint64(v) != keys[i] || it.Pointer() != x.entries[keys[i]] {
			return fmt.Errorf("index %q of type %d: entry %d is %x -> %+v, want %x -> %+v", x.name, x.typ, i, v, it.Pointer(), keys[i], x.entries[keys[i]])
		}
	}
	if i != len(keys) {
		return fmt.Errorf("index %q of type %d has %d entries, want %d", x.name, x.typ, i, len(keys))
	}
	return nil
}

func init() {
	register("C36", "histories of looking up and creating field indexes by drawn names and types, inserting into their trees, writing index and file metadata and reopening, compared after every step with a list of indexes; non-trivial = at least two indexes and one entry",
		sub("model", 6000, 120000, genIfCase, judgeIndexFile),
	)
}
