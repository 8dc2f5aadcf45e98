package main

// An index reader written only from the published page layout; it shares no code with
// the implementation.

import (
	"encoding/binary"
	"errors"
	"fmt"
)

func le64(b []byte) uint64 { return binary.LittleEndian.Uint64(b) }
func le32(b []byte) uint32 { return binary.LittleEndian.Uint32(b) }
func le16(b []byte) uint16 { return binary.LittleEndian.Uint16(b) }

type bpKey struct {
	dp  ptr
	val []byte
}

type bpPage struct {
	leaf     bool
	keys     []bpKey
	leaves   []ptr
	children []uint64
	size     int
}

var errLayout = errors.New("layout violation")

func lerr(f string, a ...any) error { return fmt.Errorf("%w: %s", errLayout, fmt.Sprintf(f, a...)) }

// uvar decodes an unsigned LEB128 integer.
func uvar(b []byte, pos *int) (uint64, error) {
	var v uint64
	for i := 0; i < 10; i++ {
		if *pos >= len(b) {
			return 0, lerr("integer runs past the page")
		}
		c := b[*pos]
		*pos++
		v |= uint64(c&0x7f) << (7 * uint(i))
		if c < 0x80 {
			return v, nil
		}
	}
	return 0, lerr("integer too long")
}

func decodeBPPage(raw []byte, off uint64, width int) (*bpPage, error) {
	if off%4096 != 0 || off+4096 > uint64(len(raw)) {
		return nil, lerr("page offset %d is not a whole page of a file of %d bytes", off, len(raw))
	}
	b := raw[off : off+4096]
	n := int32(le32(b))
	p := &bpPage{}
	if n == 0 {
		return nil, lerr("empty node at %d", off)
	}
	if n < 0 {
		p.leaf, n = true, -n
	}
	if n > 4096 {
		return nil, lerr("node at %d claims %d keys", off, n)
	}
	pos := 4
	for i := 0; i < int(n); i++ {
		o, err := uvar(b, &pos)
		if err != nil {
			return nil, err
		}
		l, err := uvar(b, &pos)
		if err != nil {
			return nil, err
		}
		if l > 0xffffffff {
			return nil, lerr("length %d exceeds 32 bits", l)
		}
		k := bpKey{dp: ptr{o, uint32(l)}}
		if width != 0 {
			if pos+width-1 > 4096 {
				return nil, lerr("key value runs past the page")
			}
			k.val = b[pos : pos+width-1]
			pos += width - 1
		}
		p.keys = append(p.keys, k)
	}
	if p.leaf {
		for i := 0; i < int(n); i++ {
			o, err := uvar(b, &pos)
			if err != nil {
				return nil, err
			}
			l, err := uvar(b, &pos)
			if err != nil {
				return nil, err
			}
			p.leaves = append(p.leaves, ptr{o, uint32(l)})
		}
	} else {
		for i := 0; i < int(n)+1; i++ {
			o, err := uvar(b, &pos)
			if err != nil {
				return nil, err
			}
			p.children = append(p.children, o)
		}
	}
	p.size = pos
	return p, nil
}

// walkPages visits every page of a tree, checking ownership (seen) and equal leaf depth,
// and appends the leaf entries in order.
func walkPages(raw []byte, root uint64, width int, seen map[uint64]bool, out *[]entry) error {
	leafDepth := -1
	var rec func(off uint64, depth int) error
	rec = func(off uint64, depth int) error {
		if seen[off] {
			return lerr("page %d is owned twice", off)
		}
		seen[off] = true
		if depth > 60 {
			return lerr("tree too deep")
		}
		p, err := decodeBPPage(raw, off, width)
		if err != nil {
			return err
		}
		if p.leaf {
			if leafDepth == -1 {
				leafDepth = depth
			} else if leafDepth != depth {
				return lerr("leaves at depths %d and %d", leafDepth, depth)
			}
			if out != nil {
				for i, k := range p.keys {
					*out = append(*out, entry{k.val, k.dp, p.leaves[i]})
				}
			}
			return nil
		}
		for _, c := range p.children {
			if err := rec(c, depth+1); err != nil {
				return err
			}
		}
		return nil
	}
	return rec(root, 0)
}

// checkBounds verifies strict key order in every page and that separators bound the
// subtrees: keys left of a separator are smaller, keys right of it are not.
func checkBounds(raw []byte, off uint64, width int, val func(bpKey) []byte, lo, hi *bpKey) error {
	p, err := decodeBPPage(raw, off, width)
	if err != nil {
		return err
	}
	for i := range p.keys {
		k := p.keys[i]
		v := val(k)
		if i > 0 && cmpKey(val(p.keys[i-1]), p.keys[i-1].dp, v, k.dp) >= 0 {
			return lerr("keys %d and %d of page %d are not in strict order", i-1, i, off)
		}
		if lo != nil && cmpKey(val(*lo), lo.dp, v, k.dp) > 0 {
			return lerr("key %d of page %d is below its separator", i, off)
		}
		if hi != nil && cmpKey(v, k.dp, val(*hi), hi.dp) >= 0 {
			return lerr("key %d of page %d is not below its upper separator", i, off)
		}
	}
	if p.leaf {
		return nil
	}
	for i, c := range p.children {
		l, h := lo, hi
		if i > 0 {
			l = &p.keys[i-1]
		}
		if i < len(p.keys) {
			h = &p.keys[i]
		}
		if err := checkBounds(raw, c, width, val, l, h); err != nil {
			return err
		}
	}
	return nil
}
