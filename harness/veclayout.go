package main

// C33: the pages of a vector store, read by a reader written only from the layout.

import (
	"fmt"
	"math"
)

type vecPage struct {
	leaf     bool
	ids      []uint64
	dps      []ptr
	vecs     [][]uint32
	children []uint64
}

func decodeVecPage(raw []byte, off uint64, dim int) (*vecPage, error) {
	if off%4096 != 0 || off+4096 > uint64(len(raw)) {
		return nil, lerr("page offset %d is not a whole page of a file of %d bytes", off, len(raw))
	}
	b := raw[off : off+4096]
	n := int32(le32(b))
	p := &vecPage{leaf: n < 0}
	if n == math.MinInt32 || n == 0 {
		return nil, lerr("the page at %d claims %d entries", off, n)
	}
	if n < 0 {
		n = -n
	}
	pos := 4
	num := func(most uint64) (x uint64, err error) {
		if x, err = uvar(b, &pos); err == nil && x > most {
			err = lerr("the number %d on the page at %d exceeds %d", x, off, most)
		}
		return x, err
	}
	for i := int32(0); i < n; i++ {
		o, err := num(math.MaxUint64)
		if err != nil {
			return nil, err
		}
		l, err := num(math.MaxUint32)
		if err != nil {
			return nil, err
		}
		id, err := num(math.MaxUint64)
		if err != nil {
			return nil, err
		}
		p.ids, p.dps = append(p.ids, id), append(p.dps, ptr{o, uint32(l)})
	}
	if !p.leaf {
		for i := int32(0); i <= n; i++ {
			c, err := num(math.MaxUint64)
			if err != nil {
				return nil, err
			}
			p.children = append(p.children, c)
		}
	}
	d, err := num(4096)
	if err != nil {
		return nil, err
	}
	if int(d) != dim {
		return nil, lerr("the page at %d is of dimension %d, the store of %d", off, d, dim)
	}
	if pos+int(n)*dim*4 > 4096 {
		return nil, lerr("the %d vectors of the page at %d run past its end", n, off)
	}
	for i := int32(0); i < n; i++ {
		v := make([]uint32, dim)
		for j := range v {
			v[j] = le32(b[pos:])
			pos += 4
		}
		p.vecs = append(p.vecs, v)
	}
	return p, nil
}

// vecLayout walks the tree of the first slot and compares its pages with the stored vectors.
func vecLayout(raw []byte, dim int, model map[uint64]vecEntry) error {
	so := slotOffset(0)
	root, length := le64(raw[so:]), le32(raw[so+8:])
	if length == 0 {
		if len(model) > 0 {
			return fmt.Errorf("%d vectors are stored and the slot has no root", len(model))
		}
		return nil
	}
	owner := map[uint64]bool{0: true, 4096: true}
	seen, depth := 0, 0
	same := func(p *vecPage, i int, off uint64) error {
		e, ok := model[p.ids[i]]
		if !ok {
			return fmt.Errorf("the page at %d names id %d, which is not stored", off, p.ids[i])
		}
		if p.dps[i] != e.dp {
			return fmt.Errorf("the page at %d gives id %d the data pointer %v, it was stored with %v", off, p.ids[i], p.dps[i], e.dp)
		}
		for j, x := range p.vecs[i] {
			if x != e.bits[j] {
				return fmt.Errorf("the page at %d gives id %d the component %d as %08x, it was stored as %08x", off, p.ids[i], j, x, e.bits[j])
			}
		}
		return nil
	}
	// ids of the subtree lie in [lo, hi]
	var walk func(off, lo, hi uint64, d int) error
	walk = func(off, lo, hi uint64, d int) error {
		if owner[off] {
			return fmt.Errorf("the page at %d has two owners", off)
		}
		owner[off] = true
		p, err := decodeVecPage(raw, off, dim)
		if err != nil {
			return err
		}
		for i, id := range p.ids {
			if id < lo || id > hi || i > 0 && id <= p.ids[i-1] {
				return fmt.Errorf("id %d is out of order on the page at %d", id, off)
			}
			if err := same(p, i, off); err != nil {
				return err
			}
		}
		if p.leaf {
			if depth == 0 {
				depth = d
			}
			if d != depth {
				return fmt.Errorf("leaves lie at the levels %d and %d", d, depth)
			}
			seen += len(p.ids)
			return nil
		}
		if d > 60 {
			return fmt.Errorf("the tree is more than %d levels deep", d)
		}
		for i, c := range p.children {
			l, h := lo, hi
			if i > 0 {
				l = p.ids[i-1]
			}
			if i < len(p.ids) {
				h = p.ids[i] - 1
			}
			if err := walk(c, l, h, d+1); err != nil {
				return err
			}
		}
		return nil
	}
	if err := walk(root, 0, math.MaxUint64, 1); err != nil {
		return err
	}
	if seen != len(model) {
		return fmt.Errorf("the leaves hold %d vectors, %d are stored", seen, len(model))
	}
	if len(raw)/4096 != len(owner) {
		return fmt.Errorf("the file has %d pages, of which %d belong to the store", len(raw)/4096, len(owner))
	}
	return nil
}

func judgeVecLayout(c vecCase, ctx *Ctx) error {
	return judgeVecFile(c, ctx, func(raw []byte, model map[uint64]vecEntry) error {
		return vecLayout(raw, c.Dim, model)
	})
}
