package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strconv"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/ngram"
	"github.com/kevmo314/appendable/pkg/pointer"
	"golang.org/x/sys/unix"
)

// The TypeScript half asks this process, one JSON object per line, to run the indexer
// under test. Byte strings travel as base64.

type serveReq struct {
	Op     string     `json:"op"`
	Data   []byte     `json:"data"`
	Search []string   `json:"search"`
	CSV    bool       `json:"csv"`
	Cuts   []int      `json:"cuts"`
	Ints   []string   `json:"ints"`
	Text   string     `json:"text"`
	N      int        `json:"n"`
	Width  int        `json:"width"`
	Leaf   bool       `json:"leaf"`
	Keys   []serveKey `json:"keys"`
	Ptrs   []serveKey `json:"ptrs"`
	Far    *serveFar  `json:"far"`
}

type serveFar struct {
	Cut  int   `json:"cut"`
	Data int64 `json:"data"`
	File int64 `json:"file"`
}

type serveKey struct {
	O string `json:"o"`
	L uint32 `json:"l"`
	V []byte `json:"v,omitempty"`
}

func (k serveKey) off() uint64 {
	v, err := strconv.ParseUint(k.O, 10, 64)
	if err != nil {
		panic(err)
	}
	return v
}

type serveSlot struct {
	Name  []byte `json:"name"`
	Type  int    `json:"type"`
	Width int    `json:"width"`
	Total string `json:"total"`
	Root  string `json:"root"`
	RootL uint32 `json:"rootl"`
}

type serveResp struct {
	Err     string      `json:"err,omitempty"`
	Index   []byte      `json:"index,omitempty"`
	HoleAt  int64       `json:"holeat"`
	Version int         `json:"version"`
	Format  int         `json:"format"`
	Read    string      `json:"read"`
	Entries string      `json:"entries"`
	Slots   []serveSlot `json:"slots,omitempty"`
	Bufs    [][]byte    `json:"bufs,omitempty"`
	Tokens  []string    `json:"tokens,omitempty"`
}

func serveMain(in *bufio.Reader, out *bufio.Writer) {
	for {
		line, err := in.ReadBytes('\n')
		if errors.Is(err, io.EOF) {
			return
		}
		if err != nil {
			fatal("%v", err)
		}
		var q serveReq
		if err := json.Unmarshal(line, &q); err != nil {
			fatal("bad request: %v", err)
		}
		r := serveOne(&q)
		b, err := json.Marshal(r)
		if err != nil {
			fatal("%v", err)
		}
		out.Write(append(b, '\n'))
		out.Flush()
	}
}

func serveOne(q *serveReq) (r *serveResp) {
	r = &serveResp{}
	defer func() {
		if x := recover(); x != nil {
			r.Err = fmt.Sprintf("panic: %v", x)
		}
	}()
	var err error
	switch q.Op {
	case "index":
		err = serveIndex(q, r)
	case "uvarint":
		for _, s := range q.Ints {
			v, e := strconv.ParseUint(s, 10, 64)
			if e != nil {
				panic(e)
			}
			r.Bufs = append(r.Bufs, binary.AppendUvarint(nil, v))
		}
	case "page":
		n := &bptree.BPTreeNode{Width: uint16(q.Width)}
		for _, k := range q.Keys {
			n.Keys = append(n.Keys, pointer.ReferencedValue{Value: k.V, DataPointer: pointer.MemoryPointer{Offset: k.off(), Length: k.L}})
		}
		for _, p := range q.Ptrs {
			if q.Leaf {
				n.LeafPointers = append(n.LeafPointers, pointer.MemoryPointer{Offset: p.off(), Length: p.L})
			} else {
				n.InternalPointers = append(n.InternalPointers, p.off())
			}
		}
		var b []byte
		b, err = n.MarshalBinary()
		r.Bufs = [][]byte{b}
	case "filemeta":
		m := appendable.FileMeta{Version: appendable.Version(q.N), Format: appendable.Format(q.Width), ReadOffset: q.Keys[0].off(), Entries: q.Ptrs[0].off()}
		var b []byte
		b, err = m.MarshalBinary()
		r.Bufs = [][]byte{b}
	case "indexmeta":
		m := appendable.IndexMeta{FieldName: string(q.Data), FieldType: appendable.FieldType(q.N), Width: uint16(q.Width), TotalFieldValueLength: q.Keys[0].off()}
		var b []byte
		b, err = m.MarshalBinary()
		r.Bufs = [][]byte{b}
	case "tokens":
		for _, t := range ngram.BuildNgram(q.Text, q.N) {
			r.Tokens = append(r.Tokens, t.Word)
		}
	default:
		fatal("unknown op %q", q.Op)
	}
	if err != nil {
		r.Err = err.Error()
	}
	return r
}

func serveIndex(q *serveReq, r *serveResp) error {
	if q.Far != nil {
		return serveIndexFar(q, r)
	}
	mem := newMem(nil)
	src := &source{csv: q.CSV, data: q.Data, search: q.Search}
	for _, c := range append(append([]int{}, q.Cuts...), len(q.Data)) {
		f, err := src.open(mem)
		if err != nil {
			return err
		}
		if err := f.Synchronize(q.Data[:c:c]); err != nil {
			return err
		}
	}
	r.Index = mem.buf
	// what the indexer itself says it wrote
	f, err := src.open(newMem(bytes.Clone(mem.buf)))
	if err != nil {
		return err
	}
	m, err := f.Metadata()
	if err != nil {
		return err
	}
	r.Version, r.Format = int(m.Version), int(m.Format)
	r.Read, r.Entries = strconv.FormatUint(m.ReadOffset, 10), strconv.FormatUint(m.Entries, 10)
	for p, err := f.Indexes(); ; p, err = p.Next() {
		if errors.Is(err, io.EOF) {
			return nil
		}
		if err != nil {
			return err
		}
		s, err := serveSlotOf(p)
		if err != nil {
			return err
		}
		r.Slots = append(r.Slots, s)
	}
}

func serveSlotOf(p *linkedpage.LinkedPage) (serveSlot, error) {
	buf, err := p.Metadata()
	if err != nil {
		return serveSlot{}, err
	}
	var im appendable.IndexMeta
	if err := im.UnmarshalBinary(buf); err != nil {
		return serveSlot{}, err
	}
	root, err := p.Root()
	if err != nil {
		return serveSlot{}, err
	}
	return serveSlot{Name: []byte(im.FieldName), Type: int(im.FieldType), Width: int(im.Width),
		Total: strconv.FormatUint(im.TotalFieldValueLength, 10), Root: strconv.FormatUint(root.Offset, 10), RootL: root.Length}, nil
}

func serveIndexFar(q *serveReq, r *serveResp) error {
	src := &source{csv: q.CSV, data: q.Data, search: q.Search}
	data, region := farData(q.Data, q.Far.Cut, q.Far.Data)
	if region == nil {
		r.HoleAt = -1
		return nil
	}
	defer unix.Munmap(region)
	mem := newMem(nil)
	defer mem.release()
	if _, err := syncFar(src, mem, data, q.Far.Cut, q.Far.Data, q.Far.File); err != nil {
		return err
	}
	if r.Index, r.HoleAt = mem.snapshot(), mem.holeAt; mem.hole == 0 {
		r.HoleAt = -1
	}
	return nil
}
