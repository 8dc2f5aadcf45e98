package main

// C04: codecs of nodes and metadata.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/btree"
	"github.com/kevmo314/appendable/pkg/encoding"
	"github.com/kevmo314/appendable/pkg/hnsw"
	"github.com/kevmo314/appendable/pkg/pointer"
	"pgregory.net/rapid"
)

type bpNodeCase struct {
	Leaf  bool     `json:"leaf"`
	Width int      `json:"w"`
	Vals  [][]byte `json:"vals"`
	DPs   []ptr    `json:"dps"`
	Ptrs  []ptr    `json:"ptrs"`
	Data  []byte   `json:"data,omitempty"`
	Pad   int      `json:"pad"`
	Seed  uint64   `json:"seed"`
}

func genBPNode(t *rapid.T) bpNodeCase {
	c := bpNodeCase{Leaf: rapid.Bool().Draw(t, "leaf"), Pad: rapid.IntRange(0, 40).Draw(t, "pad")}
	switch weighted(t, "wk", 3, 2, 4, 1) {
	case 0:
		c.Width = 0
		c.Data = rapid.SliceOfN(rapid.Byte(), 1, 80).Draw(t, "data")
	case 1:
		c.Width = 9
	case 2:
		c.Width = rapid.IntRange(1, 40).Draw(t, "w")
	case 3:
		c.Width = rapid.IntRange(1, 1300).Draw(t, "w")
	}
	n := rapid.IntRange(1, 24).Draw(t, "n")
	if rapid.IntRange(0, 15).Draw(t, "many") == 0 {
		n = rapid.IntRange(100, 700).Draw(t, "nmany")
	}
	r := splitmix(rapid.Uint64().Draw(t, "seed"))
	for i := 0; i < n; i++ {
		var dp ptr
		if i < 24 {
			dp = ptr{genOffset().Draw(t, "o"), genU32().Draw(t, "l")}
		} else {
			dp = ptr{r.next() >> (r.next() % 64), uint32(r.next() >> (r.next() % 64))}
		}
		if c.Width == 0 {
			dp.O %= uint64(len(c.Data))
			dp.L %= uint32(uint64(len(c.Data)) - dp.O + 1)
		} else {
			v := make([]byte, c.Width-1)
			for j := range v {
				v[j] = byte(r.next() >> 20)
			}
			c.Vals = append(c.Vals, v)
		}
		c.DPs = append(c.DPs, dp)
	}
	np := n
	if !c.Leaf {
		np++
	}
	for i := 0; i < np; i++ {
		var p ptr
		if i < 25 {
			p = ptr{O: genOffset().Draw(t, "po")}
		} else {
			p = ptr{O: r.next() >> (r.next() % 64)}
		}
		if c.Leaf {
			if i < 25 {
				p.L = genU32().Draw(t, "pl")
			} else {
				p.L = uint32(r.next() >> (r.next() % 64))
			}
		}
		c.Ptrs = append(c.Ptrs, p)
	}
	return c
}

type writeCounter struct {
	bytes.Buffer
	calls int
}

func judgeBPNode(c bpNodeCase, ctx *Ctx) error {
	n := &bptree.BPTreeNode{Width: uint16(c.Width), Data: c.Data, DataParser: revParser{}}
	for i := range c.DPs {
		k := pointer.ReferencedValue{DataPointer: c.DPs[i].mp()}
		if c.Width == 0 {
			k.Value = revParser{}.Parse(c.Data[c.DPs[i].O : c.DPs[i].O+uint64(c.DPs[i].L)])
		} else {
			k.Value = append([]byte{}, c.Vals[i]...)
		}
		n.Keys = append(n.Keys, k)
	}
	for _, p := range c.Ptrs {
		if c.Leaf {
			n.LeafPointers = append(n.LeafPointers, p.mp())
		} else {
			n.InternalPointers = append(n.InternalPointers, p.O)
		}
	}
	size := n.Size()
	buf, err := n.MarshalBinary()
	if err != nil {
		return fmt.Errorf("marshal: %v", err)
	}
	if int64(len(buf)) != size {
		return fmt.Errorf("announced size %d, encoded to %d bytes", size, len(buf))
	}
	var w bytes.Buffer
	m, err := n.WriteTo(&w)
	if err != nil || m != size || !bytes.Equal(w.Bytes(), buf) {
		return fmt.Errorf("WriteTo wrote %d bytes (reported %d, err %v), MarshalBinary gives %d", w.Len(), m, err, size)
	}
	// exact buffer, and a buffer followed by other bytes as in a page
	for _, pad := range []int{0, c.Pad} {
		b := append(append([]byte{}, buf...), bytes.Repeat([]byte{0xAB}, pad)...)
		d := &bptree.BPTreeNode{Width: uint16(c.Width), Data: c.Data, DataParser: revParser{}}
		if err := d.UnmarshalBinary(b); err != nil {
			return fmt.Errorf("unmarshal: %v", err)
		}
		if d.Leaf() != c.Leaf || len(d.Keys) != len(n.Keys) || d.NumPointers() != len(c.Ptrs) {
			return fmt.Errorf("decoded leaf=%v with %d keys and %d pointers, want leaf=%v, %d, %d", d.Leaf(), len(d.Keys), d.NumPointers(), c.Leaf, len(n.Keys), len(c.Ptrs))
		}
		for i := range n.Keys {
			if d.Keys[i].DataPointer != n.Keys[i].DataPointer || !bytes.Equal(d.Keys[i].Value, n.Keys[i].Value) {
				return fmt.Errorf("key %d decoded as %v, want %v", i, d.Keys[i], n.Keys[i])
			}
		}
		for i, p := range c.Ptrs {
			got := d.Pointer(i)
			want := p.mp()
			if !c.Leaf {
				want.Length = 0
			}
			if got != want {
				return fmt.Errorf("pointer %d decoded as %v, want %v", i, got, want)
			}
		}
	}
	// the independent decoder agrees, where the node fits a page
	if len(buf) <= 4096 {
		page := make([]byte, 4096)
		copy(page, buf)
		p, err := decodeBPPage(page, 0, c.Width)
		if err != nil {
			return err
		}
		if p.size != len(buf) || p.leaf != c.Leaf || len(p.keys) != len(c.DPs) {
			return fmt.Errorf("layout decoder: %d bytes, leaf %v, %d keys", p.size, p.leaf, len(p.keys))
		}
		for i := range p.keys {
			if p.keys[i].dp != c.DPs[i] || (c.Width > 0 && !bytes.Equal(p.keys[i].val, c.Vals[i])) {
				return fmt.Errorf("layout decoder: key %d is %v, want %v", i, p.keys[i], c.DPs[i])
			}
		}
		for i, q := range c.Ptrs {
			if c.Leaf && p.leaves[i] != q || !c.Leaf && p.children[i] != q.O {
				return fmt.Errorf("layout decoder: pointer %d differs", i)
			}
		}
	}
	ctx.Labelf(c.Leaf, "leaf")
	ctx.Labelf(!c.Leaf, "internal")
	ctx.Labelf(c.Width == 0, "referenced")
	ctx.Labelf(len(c.DPs) > 127, "many-keys")
	ctx.NT(len(c.DPs) > 1)
	return nil
}

type vecNodeCase struct {
	Leaf bool       `json:"leaf"`
	Dim  int        `json:"dim"`
	Ids  []uint64   `json:"ids"`
	DPs  []ptr      `json:"dps"`
	Offs []uint64   `json:"offs,omitempty"`
	Vecs [][]uint32 `json:"vecs"` // float bit patterns
}

var floatBits = []uint32{0, 1 << 31, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7fa00001, 0xffffffff, 1, 0x007fffff, 0x00800000, 0x7f7fffff, 0x4f000000, 0x5f000000}

func genBits() *rapid.Generator[uint32] {
	return rapid.Custom(func(t *rapid.T) uint32 {
		switch rapid.IntRange(0, 2).Draw(t, "bk") {
		case 0:
			return floatBits[rapid.IntRange(0, len(floatBits)-1).Draw(t, "sp")]
		case 1:
			return math.Float32bits(float32(rapid.IntRange(-1000, 1000).Draw(t, "num")) / 8)
		default:
			return rapid.Uint32().Draw(t, "bits")
		}
	})
}

func genVecNode(t *rapid.T) vecNodeCase {
	c := vecNodeCase{Leaf: rapid.Bool().Draw(t, "leaf")}
	switch weighted(t, "dimk", 5, 2, 1) {
	case 0:
		c.Dim = rapid.IntRange(1, 8).Draw(t, "dim")
	case 1:
		c.Dim = rapid.IntRange(9, 140).Draw(t, "dim")
	case 2:
		c.Dim = rapid.IntRange(141, 1100).Draw(t, "dim")
	}
	n := rapid.IntRange(1, 12).Draw(t, "n")
	r := splitmix(rapid.Uint64().Draw(t, "seed"))
	for i := 0; i < n; i++ {
		c.Ids = append(c.Ids, genOffset().Draw(t, "id"))
		c.DPs = append(c.DPs, ptr{genOffset().Draw(t, "o"), genU32().Draw(t, "l")})
		v := make([]uint32, c.Dim)
		for j := range v {
			if j < 6 {
				v[j] = genBits().Draw(t, "b")
			} else {
				v[j] = uint32(r.next())
			}
		}
		c.Vecs = append(c.Vecs, v)
	}
	if !c.Leaf {
		for i := 0; i <= n; i++ {
			c.Offs = append(c.Offs, genOffset().Draw(t, "off"))
		}
	}
	return c
}

func pointOf(bits []uint32) hnsw.Point {
	p := make(hnsw.Point, len(bits))
	for i, b := range bits {
		p[i] = math.Float32frombits(b)
	}
	return p
}

func sameBits(p hnsw.Point, bits []uint32) bool {
	if len(p) != len(bits) {
		return false
	}
	for i := range p {
		if math.Float32bits(p[i]) != bits[i] {
			return false
		}
	}
	return true
}

func judgeVecNode(c vecNodeCase, ctx *Ctx) error {
	n := &btree.BTreeNode{VectorDim: uint64(c.Dim), Offsets: append([]uint64{}, c.Offs...)}
	for i := range c.Ids {
		n.Ids = append(n.Ids, pointer.ReferencedId{DataPointer: c.DPs[i].mp(), Value: hnsw.Id(c.Ids[i])})
		n.Vectors = append(n.Vectors, pointOf(c.Vecs[i]))
	}
	size := n.Size()
	buf, err := n.MarshalBinary()
	if err != nil {
		return fmt.Errorf("marshal: %v", err)
	}
	if int64(len(buf)) != size {
		return fmt.Errorf("announced size %d, encoded to %d bytes", size, len(buf))
	}
	var w bytes.Buffer
	if m, err := n.WriteTo(&w); err != nil || m != size || !bytes.Equal(w.Bytes(), buf) {
		return fmt.Errorf("WriteTo differs from MarshalBinary (%d, %v)", m, err)
	}
	for _, pad := range []int{0, 17} {
		b := append(append([]byte{}, buf...), bytes.Repeat([]byte{0xAB}, pad)...)
		d := &btree.BTreeNode{VectorDim: uint64(c.Dim)}
		if err := d.UnmarshalBinary(b); err != nil {
			return fmt.Errorf("unmarshal: %v", err)
		}
		if d.Leaf() != c.Leaf || len(d.Ids) != len(c.Ids) || len(d.Offsets) != len(c.Offs) || len(d.Vectors) != len(c.Ids) || d.VectorDim != uint64(c.Dim) {
			return fmt.Errorf("decoded leaf=%v ids=%d offsets=%d vectors=%d dim=%d", d.Leaf(), len(d.Ids), len(d.Offsets), len(d.Vectors), d.VectorDim)
		}
		for i := range c.Ids {
			if d.Ids[i] != n.Ids[i] {
				return fmt.Errorf("id %d decoded as %v, want %v", i, d.Ids[i], n.Ids[i])
			}
			if !sameBits(d.Vectors[i], c.Vecs[i]) {
				return fmt.Errorf("vector %d decoded as %v, want %v", i, d.Vectors[i], n.Vectors[i])
			}
		}
		for i := range c.Offs {
			if d.Offsets[i] != c.Offs[i] {
				return fmt.Errorf("offset %d decoded as %d, want %d", i, d.Offsets[i], c.Offs[i])
			}
		}
	}
	ctx.Labelf(c.Leaf, "leaf")
	ctx.Labelf(!c.Leaf, "internal")
	ctx.NT(len(c.Ids) > 1)
	return nil
}

type varintCase struct {
	V []uint64 `json:"v"`
}

type metaCase struct {
	Version byte   `json:"version"`
	Format  int    `json:"format"`
	Off     uint64 `json:"off"`
	Entries uint64 `json:"entries"`
	Name    []byte `json:"name"`
	Type    byte   `json:"type"`
	Width   uint16 `json:"width"`
	Total   uint64 `json:"total"`
	Pad     int    `json:"pad"`
}

func judgeMeta(c metaCase, ctx *Ctx) error {
	fm := &appendable.FileMeta{Version: appendable.Version(c.Version), Format: appendable.Format(c.Format), ReadOffset: c.Off, Entries: c.Entries}
	buf, err := fm.MarshalBinary()
	if err != nil {
		return fmt.Errorf("file metadata: %v", err)
	}
	var got appendable.FileMeta
	if err := got.UnmarshalBinary(append(append([]byte{}, buf...), make([]byte, c.Pad)...)); err != nil || got != *fm {
		return fmt.Errorf("file metadata %+v decoded as %+v (%v)", *fm, got, err)
	}
	if len(buf) != 10+len(binary.AppendUvarint(nil, c.Entries)) {
		return fmt.Errorf("file metadata takes %d bytes", len(buf))
	}
	for i := 0; i < 10; i++ {
		var m appendable.FileMeta
		if err := m.UnmarshalBinary(append([]byte{}, buf[:i]...)); err == nil {
			return fmt.Errorf("file metadata cut to %d bytes was accepted", i)
		}
	}
	for i := 10; i < len(buf); i++ {
		var m appendable.FileMeta
		_ = m.UnmarshalBinary(append([]byte{}, buf[:i]...)) // must not crash
	}
	bad := append([]byte{}, buf...)
	bad[1] = byte(2 + int(c.Type)%254)
	var bm appendable.FileMeta
	if err := bm.UnmarshalBinary(bad); err == nil {
		return fmt.Errorf("unknown format %d was accepted", bad[1])
	}

	im := &appendable.IndexMeta{FieldName: string(c.Name), FieldType: appendable.FieldType(c.Type), Width: c.Width, TotalFieldValueLength: c.Total}
	ib, err := im.MarshalBinary()
	if err != nil {
		return fmt.Errorf("index metadata: %v", err)
	}
	var ig appendable.IndexMeta
	if err := ig.UnmarshalBinary(append(append([]byte{}, ib...), make([]byte, c.Pad)...)); err != nil || ig != *im {
		return fmt.Errorf("index metadata %+v decoded as %+v (%v)", *im, ig, err)
	}
	for i := 0; i < len(ib); i++ {
		var m appendable.IndexMeta
		// no spare capacity: reading past the end must not go unnoticed
		err := m.UnmarshalBinary(append(make([]byte, 0, i), ib[:i]...))
		if err == nil && i < 6+len(c.Name) {
			return fmt.Errorf("index metadata cut to %d of %d bytes was accepted", i, len(ib))
		}
	}
	ctx.Labelf(len(c.Name) > 127, "long-name")
	ctx.Labelf(c.Entries >= 1<<32 || c.Total >= 1<<32, "over-32-bit")
	ctx.NT(len(c.Name) > 0)
	return nil
}

type rawCase struct {
	B []byte `json:"b"`
}

func init() {
	register("C04", "random tree nodes (leaf and internal, drawn widths, pointers around every varint boundary, up to 700 keys), vector nodes with arbitrary float bit patterns, metadata records and their truncations, arbitrary metadata bytes; non-trivial = a node of at least two keys, or a metadata record with a name",
		sub("bpnode", 30000, 480000, genBPNode, judgeBPNode),
		sub("vecnode", 20000, 320000, genVecNode, judgeVecNode),
		sub("varint", 10000, 240000, func(t *rapid.T) varintCase {
			return varintCase{rapid.SliceOfN(genOffset(), 1, 60).Draw(t, "v")}
		}, func(c varintCase, ctx *Ctx) error {
			for _, v := range c.V {
				for _, x := range []uint64{v, v + 1, v - 1, ^v} {
					if g, w := encoding.SizeVarint(x), len(binary.AppendUvarint(nil, x)); g != w {
						return fmt.Errorf("predicted length of %d is %d, actual %d", x, g, w)
					}
				}
			}
			return nil
		}),
		sub("meta", 15000, 240000, func(t *rapid.T) metaCase {
			return metaCase{Version: rapid.Byte().Draw(t, "version"), Format: rapid.IntRange(0, 1).Draw(t, "format"),
				Off: genOffset().Draw(t, "off"), Entries: genOffset().Draw(t, "entries"),
				Name: rapid.SliceOfN(rapid.Byte(), 0, weightedLen(t)).Draw(t, "name"), Type: rapid.Byte().Draw(t, "type"),
				Width: uint16(genU32().Draw(t, "width")), Total: genOffset().Draw(t, "total"), Pad: rapid.IntRange(0, 20).Draw(t, "pad")}
		}, judgeMeta),
		sub("garbage", 15000, 240000, func(t *rapid.T) rawCase {
			return rawCase{rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "b")}
		}, func(c rawCase, ctx *Ctx) error {
			b := append(make([]byte, 0, len(c.B)), c.B...)
			var fm appendable.FileMeta
			if err := fm.UnmarshalBinary(b); err == nil && (len(b) < 10 || b[1] > 1) {
				return fmt.Errorf("file metadata %x was accepted", b)
			}
			var im appendable.IndexMeta
			if err := im.UnmarshalBinary(b); err == nil && (len(b) < 6 || len(b) < 6+int(le16(b[4:]))) {
				return fmt.Errorf("index metadata %x was accepted", b)
			}
			return nil
		}))
}

func weightedLen(t *rapid.T) int {
	return []int{3, 20, 300}[weighted(t, "len", 3, 3, 2)]
}
