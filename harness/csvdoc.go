package main

// Generated CSV documents and the model of an index of them.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// modelCSVField classifies the text of one CSV field: null, number, boolean, string.
func modelCSVField(s string) ([]byte, int) {
	if s == "" {
		return []byte{}, tNull
	}
	f, err := strconv.ParseFloat(s, 64)
	if i, e := strconv.Atoi(s); e == nil { // whole numbers have no negative zero
		f, err = float64(i), nil
	}
	if err == nil {
		b := make([]byte, 8)
		binary.BigEndian.PutUint64(b, math.Float64bits(f))
		return b, tNumber
	}
	switch s {
	case "t", "T", "true", "TRUE", "True":
		return []byte{1}, tBool
	case "f", "F", "false", "FALSE", "False":
		return []byte{0}, tBool
	}
	return []byte(s), tString
}

// splitCSV splits a line into the texts and the values of its fields.
func splitCSV(line string) (texts, values []string, err error) {
	for {
		n := strings.IndexByte(line, ',')
		if n < 0 {
			n = len(line)
		}
		value := line[:n]
		if strings.HasPrefix(line, `"`) {
			var b strings.Builder
			for n = 1; ; n++ {
				if n >= len(line) {
					return nil, nil, fmt.Errorf("unfinished quoted field")
				}
				if line[n] == '"' {
					if n+1 == len(line) || line[n+1] != '"' {
						break
					}
					n++
				}
				b.WriteByte(line[n])
			}
			value = b.String()
			n++
			if n < len(line) && line[n] != ',' {
				return nil, nil, fmt.Errorf("text after a quoted field")
			}
		} else if strings.Contains(value, `"`) {
			return nil, nil, fmt.Errorf("quote inside an unquoted field")
		}
		texts, values = append(texts, line[:n]), append(values, value)
		if n == len(line) {
			return texts, values, nil
		}
		line = line[n+1:]
	}
}

// modelCSV builds the model of the complete lines of data: a header and rows.
func modelCSV(data []byte) (*mFile, error) {
	m := &mFile{by: map[string]*mIndex{}}
	var head []string
	off := 0
	for {
		i := bytes.IndexByte(data[off:], '\n')
		if i < 0 {
			return m, nil
		}
		line := strings.TrimSuffix(string(data[off:off+i]), "\r")
		if line == "" {
			return m, fmt.Errorf("empty line at %d", off)
		}
		texts, fields, err := splitCSV(line)
		if err != nil {
			return m, fmt.Errorf("at %d: %w", off, err)
		}
		if head == nil {
			head = fields
			for _, h := range head {
				if len(h) > 236 {
					return m, fmt.Errorf("column name too long")
				}
			}
		} else {
			if len(fields) > len(head) {
				return m, fmt.Errorf("too many fields at %d", off)
			}
			row := ptr{uint64(off), uint32(i)}
			p := off
			for k, f := range fields {
				v, typ := modelCSVField(f)
				x := m.idx(head[k], typ)
				x.entries = append(x.entries, mEntry{val: v, keyOff: uint64(p), keyLen: uint32(len(texts[k])), row: row})
				m.values++
				p += len(texts[k]) + 1
			}
			m.rows = append(m.rows, row)
			m.entries++
		}
		off += i + 1
		m.readOffset = uint64(off)
	}
}

func mustCSV(data []byte) *mFile {
	m, err := modelCSV(data)
	if err != nil {
		panic(harnessError{fmt.Errorf("generated CSV: %w", err)})
	}
	return m
}

var csvPool = []string{"", "", "foo", "bar", "1", "0", "-1", "1.5", "1e3", "0x1p4", "NaN", "-Inf", "Infinity", "true", "false", "T", "f", "True", "FALSE", "tRUE",
	"null", "1_000", "007", "+5", ".5", "5.", "1e400", "9223372036854775808", "-0", "naïve", "日本", " 1", "1 ", "a b", "'x'", "1,", "0b1", "0x10", "1e", "\t", "🙂", "yes", "foo"}

func quoteCSV(s string) string { return `"` + strings.ReplaceAll(s, `"`, `""`) + `"` }

func genCSVField(r rng) string {
	if r.n(12) == 0 {
		s := csvPool[r.n(len(csvPool))]
		if r.n(2) == 0 {
			s = strings.NewReplacer("\n", " ", "\r", " ").Replace(genText(r))
		}
		return quoteCSV(s + []string{"", "", ",", `"`, `,"x"`}[r.n(5)])
	}
	switch r.n(5) {
	case 0, 1:
		return strings.ReplaceAll(csvPool[r.n(len(csvPool))], ",", "")
	case 2:
		return strconv.Itoa(r.n(30) - 5)
	case 3:
		s := strings.Map(func(c rune) rune {
			if c == '"' || c == ',' || c == '\n' || c == '\r' {
				return '.'
			}
			return c
		}, genText(r))
		return s
	default:
		return []string{"red", "green", "blue"}[r.n(3)]
	}
}

func genCSVRow(r rng, cols int, typed bool) string {
	n := cols
	if r.n(8) == 0 {
		n = 1 + r.n(cols)
	}
	f := make([]string, n)
	for i := range f {
		if typed {
			f[i] = []string{strconv.Itoa(r.n(1000)), []string{"true", "false"}[r.n(2)], "s" + strconv.Itoa(r.n(50)), ""}[i%4]
		} else {
			f[i] = genCSVField(r)
		}
	}
	s := strings.Join(f, ",")
	if s == "" {
		s = "z"
	}
	return s
}

type csvCase struct {
	Head  []string  `json:"head"`
	Items []docItem `json:"items"`
	CRLF  bool      `json:"crlf"`
	Tail  string    `json:"tail,omitempty"`
}

func genCSV(o docOpts) func(t *rapid.T) csvCase {
	return func(t *rapid.T) csvCase {
		var c csvCase
		r := rapidRng{t}
		n := 1 + weighted(t, "cols", 2, 3, 3, 2, 1, 1)
		if rapid.IntRange(0, 9).Draw(t, "wide") == 9 {
			n = rapid.IntRange(10, 40).Draw(t, "ncols")
			if rapid.IntRange(0, 3).Draw(t, "wider") == 3 {
				for i, k := 0, rapid.IntRange(41, 250).Draw(t, "ncols2"); i < k; i++ {
					c.Head = append(c.Head, fmt.Sprintf("wide%d", i))
				}
				c.Items = []docItem{{Bulk: rapid.IntRange(1, 4).Draw(t, "wrows"), Seed: rapid.Uint64().Draw(t, "wseed"), Style: rapid.IntRange(0, 1).Draw(t, "wstyle")}}
				return c
			}
		}
		seen := map[string]bool{}
		again := rapid.IntRange(0, 7).Draw(t, "again") == 7 // several columns of one name share its indexes
		for i := 0; i < n; i++ {
			h := fmt.Sprintf("c%d", i)
			if r.n(3) > 0 {
				h = fieldPool[r.n(len(fieldPool))]
			}
			if r.n(40) == 39 {
				h = strings.Repeat("m", 235+r.n(2))
			}
			if again && i > 0 && r.n(3) == 0 {
				h = c.Head[r.n(i)]
			} else if seen[h] {
				h = fmt.Sprintf("c%d", i)
			}
			seen[h] = true
			c.Head = append(c.Head, h)
		}
		if len(c.Head) == 1 && c.Head[0] == "" {
			c.Head[0] = "a"
		}
		c.CRLF = rapid.IntRange(0, 4).Draw(t, "crlf") == 4
		for i, k := 0, drawSize(t, o.rows); i < k; i++ {
			if skip(t) {
				continue
			}
			c.Items = append(c.Items, docItem{Row: genCSVRow(r, n, false)})
		}
		if o.bulk > 0 && drawBulk(t, o.bulk) {
			at := rapid.IntRange(0, len(c.Items)).Draw(t, "at")
			b := docItem{Bulk: drawSize(t, o.bulk), Seed: rapid.Uint64().Draw(t, "seed"), Style: rapid.IntRange(0, 1).Draw(t, "style")}
			c.Items = append(c.Items[:at], append([]docItem{b}, c.Items[at:]...)...)
		}
		if rapid.IntRange(0, 15).Draw(t, "hasbig") == 15 {
			at := rapid.IntRange(0, len(c.Items)).Draw(t, "at")
			c.Items = append(c.Items[:at], append([]docItem{genBig(t)}, c.Items[at:]...)...)
		}
		if !o.noTail && rapid.IntRange(0, 2).Draw(t, "tail") == 0 {
			c.Tail = genCSVRow(r, n, false)
		}
		return c
	}
}

func (c *csvCase) lines() []string {
	var head []string
	for _, h := range c.Head {
		if strings.ContainsAny(h, ",\"") {
			h = quoteCSV(h)
		}
		head = append(head, h)
	}
	out := []string{strings.Join(head, ",")}
	for _, it := range c.Items {
		if it.Big > 0 {
			f := make([]string, len(c.Head))
			for i := range f {
				f[i] = []string{"x", "", "1"}[i%3]
			}
			f[int(it.Seed)%len(f)] = bigText(it)
			switch it.Style {
			case 1:
				f[int(it.Seed)%len(f)] = quoteCSV(bigText(it) + `,"`)
			case 2:
				f[int(it.Seed)%len(f)] = "1." + strings.Repeat("0", it.Big)
			}
			out = append(out, strings.Join(f, ","))
			continue
		}
		if it.Bulk == 0 {
			out = append(out, it.Row)
			continue
		}
		r := splitmix(it.Seed)
		// finding the index of a field takes time proportional to the number of fields
		for i, n := 0, min(it.Bulk, max(50, 5_000_000/max(1, 4*len(c.Head)*len(c.Head)))); i < n; i++ {
			out = append(out, genCSVRow(&r, len(c.Head), it.Style == 1))
		}
	}
	return out
}

func (c *csvCase) bytes() []byte {
	var b bytes.Buffer
	for _, l := range c.lines() {
		b.WriteString(l)
		if c.CRLF {
			b.WriteByte('\r')
		}
		b.WriteByte('\n')
	}
	b.WriteString(c.Tail)
	return b.Bytes()
}
