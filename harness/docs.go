package main

// Generated JSONL documents and an independent model of what an index of them holds.

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/text/unicode/norm"
	"pgregory.net/rapid"
)

// rng is a source of choices: rapid draws (shrinkable) or a seeded stream (bulk rows).
type rng interface{ n(n int) int }

type rapidRng struct{ t *rapid.T }

func (r rapidRng) n(n int) int {
	if n <= 1 {
		return 0
	}
	return rapid.IntRange(0, n-1).Draw(r.t, "c")
}

func (s *splitmix) n(n int) int {
	if n <= 1 {
		return 0
	}
	return s.intn(n)
}

// ---- generation ----

var fieldPool = []string{"a", "b", "id", "name", "text", "a.b", "naïve", "", "x y", "k\"q", "日本", "tab\tname", "A", "true", "0",
	strings.Repeat("n", 50), "🙂", "c", "d", "a,b", " b", "a ", "-s", "a=b", "id;x", "Name"}

var wordPool = []string{"foo", "bar", "Quick", "brown", "fox42", "x", "ab", "the", "-", "don't", "naïve", "日本語", "ﬁne", "Ⅷ", "e\u0301a", "ＡＢＣ", "½", "🙂", "a_b", "UPPER", "99", "\u00a0", "\u2003"}

func genText(r rng) string {
	switch r.n(10) {
	case 0:
		return ""
	case 1, 2:
		return []string{"foo", "bar", "foo", "a", "b", "foobar", "fo"}[r.n(7)]
	case 3, 4, 5, 6:
		k := r.n(6) + 1
		parts := make([]string, k)
		for i := range parts {
			parts[i] = wordPool[r.n(len(wordPool))]
		}
		return strings.Join(parts, []string{" ", " ", " ", "  ", "\t", "\n", ""}[r.n(7)])
	case 7:
		return strings.Repeat(wordPool[r.n(6)]+" ", r.n(40)+1)
	case 8:
		var b strings.Builder
		for i, k := 0, r.n(12); i < k; i++ {
			switch r.n(5) {
			case 0:
				b.WriteByte(byte(r.n(32)))
			case 1:
				b.WriteByte(byte(32 + r.n(96)))
			case 2:
				b.WriteRune(rune(0x80 + r.n(0x700)))
			case 3:
				b.WriteRune(rune(0x800 + r.n(0xD000)))
			default:
				b.WriteRune(rune(0x10000 + r.n(0x100000)))
			}
		}
		return b.String()
	default:
		return strconv.Itoa(r.n(1000))
	}
}

const hexd = "0123456789abcdefABCDEF"

// quoteJSON writes s as a JSON string, choosing escapes.
func quoteJSON(r rng, s string, fancy bool) string {
	var b strings.Builder
	b.WriteByte('"')
	u := func(x rune) { fmt.Fprintf(&b, "\\u%04x", x) }
	for _, c := range s {
		esc := fancy && r.n(8) == 0
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c == '\n' && !esc:
			b.WriteString("\\n")
		case c == '\t' && !esc:
			b.WriteString("\\t")
		case c == '\r' && !esc:
			b.WriteString("\\r")
		case c == '\b' && !esc:
			b.WriteString("\\b")
		case c == '\f' && !esc:
			b.WriteString("\\f")
		case c == '/' && esc:
			b.WriteString("\\/")
		case c < 0x20:
			u(c)
		case esc && c >= 0x10000:
			c -= 0x10000
			u(0xD800 + c>>10)
			u(0xDC00 + c&0x3ff)
		case esc:
			u(c)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

var numPool = []string{"0", "-0", "1", "-1", "100", "1e2", "1E+2", "0.1", "-0.5", "3.14159", "1e308", "-1.7976931348623157e308", "5e-324", "1e-400",
	"9007199254740993", "123456789012345678901234567890", "2147483648", "-2147483649", "0.0", "0e5", "1.0"}

func genNum(r rng) string {
	switch r.n(4) {
	case 0:
		return numPool[r.n(len(numPool))]
	case 1:
		return strconv.Itoa(r.n(20) - 5)
	case 2:
		return strconv.Itoa(r.n(1000000))
	default:
		return strconv.FormatFloat(float64(r.n(200000)-100000)/64, 'g', -1, 64)
	}
}

type docStyle struct {
	Names  []string // fields of this document
	WS     int      // 0 compact, 1 one space, 2 any
	Fancy  bool     // escapes in strings
	Nest   bool
	Flat   bool // every row has every field once, string or number by position
	Long   bool // an occasional long string
	MaxNum int
}

func ws(r rng, st *docStyle, after bool) string {
	switch st.WS {
	case 0:
		return ""
	case 1:
		if after {
			return " "
		}
		return ""
	}
	return []string{"", "", " ", "  ", "\t", "\r", " \t "}[r.n(7)]
}

func genValue(r rng, st *docStyle, depth int) string {
	k := r.n(14)
	if (k >= 11) && (!st.Nest || depth > 2) {
		k -= 11
	}
	switch {
	case k < 5:
		if st.Long && r.n(10) == 0 {
			return quoteJSON(r, strings.Repeat("long "+wordPool[r.n(5)], 10+r.n(200)), false)
		}
		return quoteJSON(r, genText(r), st.Fancy)
	case k < 8:
		return genNum(r)
	case k == 8:
		return "true"
	case k == 9:
		return "false"
	case k == 10:
		return "null"
	case k == 11:
		n := r.n(4)
		var b strings.Builder
		b.WriteString("[" + ws(r, st, false))
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString("," + ws(r, st, true))
			}
			b.WriteString(genValue(r, st, depth+1) + ws(r, st, false))
		}
		b.WriteString("]")
		return b.String()
	default:
		return genObject(r, st, depth+1)
	}
}

func genObject(r rng, st *docStyle, depth int) string {
	var b strings.Builder
	b.WriteString("{" + ws(r, st, false))
	n := r.n(min(6, len(st.Names)+1))
	if st.Flat && depth == 0 {
		n = len(st.Names)
	}
	used := map[string]bool{}
	first := true
	for i := 0; i < n; i++ {
		name := st.Names[r.n(len(st.Names))]
		if st.Flat && depth == 0 {
			name = st.Names[i]
		}
		if used[name] && r.n(30) != 0 { // a repeated name in one object, rarely
			continue
		}
		used[name] = true
		if !first {
			b.WriteString("," + ws(r, st, true))
		}
		first = false
		b.WriteString(quoteJSON(r, name, st.Fancy && r.n(4) == 0) + ws(r, st, false) + ":" + ws(r, st, true) + genValue(r, st, depth) + ws(r, st, false))
	}
	b.WriteString("}")
	return b.String()
}

func genRow(r rng, st *docStyle) string {
	return ws(r, st, false) + genObject(r, st, 0) + ws(r, st, false)
}

type docItem struct {
	Row   string `json:"row,omitempty"`
	Bulk  int    `json:"bulk,omitempty"`
	Seed  uint64 `json:"seed,omitempty"`
	Style int    `json:"style,omitempty"`
	Big   int    `json:"big,omitempty"` // a row with one part about this many bytes long
}

var bigSizes = []int{250, 256, 1000, 4080, 4096, 5000, 32767, 65530, 65536, 70000, 300000, 1 << 20}

func genBig(t *rapid.T) docItem {
	return docItem{Big: bigSizes[rapid.IntRange(0, len(bigSizes)-1).Draw(t, "big")] + rapid.IntRange(0, 20).Draw(t, "more"), Style: rapid.IntRange(0, 7).Draw(t, "style"), Seed: rapid.Uint64Range(0, 100).Draw(t, "seed")}
}

// bigText has few n-grams, so that it can also be the value of a searchable field.
func bigText(it docItem) string {
	if it.Seed%7 == 6 { // except this one
		g := splitmix(it.Seed*1009 + uint64(it.Big))
		var b strings.Builder
		for b.Len() < min(it.Big, 12000) {
			for i, n := 0, g.intn(9)+1; i < n; i++ {
				b.WriteByte("abcdefghijklmnopqrstuvwxyzABCDEF0123456789"[g.intn(42)])
			}
			b.WriteByte(' ')
		}
		return b.String()
	}
	fill := []string{".", "-", "日", "é ", "  ", "🙂"}[it.Seed%6]
	return "ab " + strings.Repeat(fill, it.Big/len(fill)) + " xyz"
}

// bigRow is a row with a long value, a long gap or deep nesting.
func bigRow(it docItem, names []string) string {
	q := func(i int) string { return quoteJSON(nil, names[i%len(names)], false) }
	n := int(it.Seed)
	v := `"` + bigText(it) + `"`
	switch it.Style {
	case 0:
		return fmt.Sprintf("{%s:%s}", q(n), v)
	case 1:
		if len(names) > 1 { // between other fields
			return fmt.Sprintf(`{%s:"before",%s:%s}`, q(n), q(n+1), v)
		}
		return fmt.Sprintf("{ %s : %s }", q(n), v)
	case 2: // long, but not indexed
		if len(names) > 1 {
			return fmt.Sprintf(`{%s:[1,%s,{"k":%s}],%s:"after"}`, q(n), v, v, q(n+1))
		}
		return fmt.Sprintf(`{%s:[%s]}`, q(n), v)
	case 3: // a long gap
		gap := strings.Repeat([]string{" ", "\t", " \r"}[n%3], it.Big)
		return []string{"{" + gap + q(n) + ":1}", "{" + q(n) + gap + ":true}", "{" + q(n) + ":" + gap + `"v"` + "}", "{" + q(n) + ":2" + gap + "}", gap + "{" + q(n) + ":null}", "{" + q(n) + `:"w"}` + gap}[n%6]
	case 4: // a long number
		return fmt.Sprintf("{%s:1.%s5}", q(n), strings.Repeat("0", it.Big%2000))
	case 6: // many fields
		var b strings.Builder
		for i, k := 0, 41+it.Big%210; i < k; i++ {
			v := []string{"1", `"v"`, "true", "null", `{"in":2}`, "[]", `"w"`}[(i*5+n)%7]
			fmt.Fprintf(&b, `%s"wide%d":%s`, []string{"{", ","}[min(i, 1)], i, v)
		}
		return b.String() + "}"
	case 7: // an array of many elements, and a field after it
		var b strings.Builder
		for i, k := 0, 1+min(it.Big/8, 9000); i < k; i++ {
			b.WriteString([]string{",", "["}[max(0, 1-i)] + []string{"1", `"v"`, "[]", `{"k":[1,{}]}`, "null", `"]"`, `[[true],{"j":"]}"}]`}[(i*3+n)%7])
		}
		if len(names) > 1 {
			return fmt.Sprintf(`{%s:%s],%s:"after"}`, q(n), b.String(), q(n+1))
		}
		return fmt.Sprintf(`{%s:%s]}`, q(n), b.String())
	default: // deep nesting, by the shortest name and in arrays
		name := names[0]
		for _, x := range names {
			if len(x) < len(name) {
				name = x
			}
		}
		d := min(n, (236-len(name))/(len(name)+1)) // the flattened name must fit an index slot
		k := quoteJSON(nil, name, false)
		if n%3 == 1 {
			n += it.Big % 3000
		}
		return strings.Repeat("{"+k+":", d) + "{" + k + ":" + strings.Repeat("[", n) + "3" + strings.Repeat("]", n) + "}" + strings.Repeat("}", d)
	}
}

// docCase is a generated document: rows given literally, and runs of rows expanded from a seed.
type docCase struct {
	Names  []string  `json:"names"`
	WS     int       `json:"ws"`
	Nest   bool      `json:"nest"`
	Fancy  bool      `json:"fancy"`
	Items  []docItem `json:"items"`
	Search []string  `json:"search,omitempty"`
	Tail   string    `json:"tail,omitempty"` // an incomplete last line
}

type docOpts struct {
	rows, bulk int
	search     bool
	noTail     bool
}

func genDocStyle(t *rapid.T) docCase {
	var c docCase
	r := rapidRng{t}
	nn := 1 + weighted(t, "nn", 2, 3, 3, 2, 2, 1, 1, 1)
	if rapid.IntRange(0, 9).Draw(t, "manynames") == 9 {
		for i, k := 0, rapid.IntRange(10, 45).Draw(t, "nnames"); i < k; i++ {
			c.Names = append(c.Names, fmt.Sprintf("f%d", i))
		}
	} else {
		seen := map[string]bool{}
		for i := 0; i < nn; i++ {
			n := fieldPool[r.n(len(fieldPool))]
			if !seen[n] {
				seen[n] = true
				c.Names = append(c.Names, n)
			}
		}
	}
	c.WS = weighted(t, "ws", 3, 2, 2)
	c.Nest = rapid.Bool().Draw(t, "nest")
	if !c.Nest && rapid.IntRange(0, 9).Draw(t, "longname") == 9 { // as long as an index slot allows
		c.Names = append(c.Names, []string{strings.Repeat("m", 236), strings.Repeat("m", 235), strings.Repeat("é", 118), strings.Repeat("m", 235) + "n"}[r.n(4)])
	}
	c.Fancy = rapid.Bool().Draw(t, "fancy")
	return c
}

func genDoc(o docOpts) func(t *rapid.T) docCase {
	return func(t *rapid.T) docCase {
		c := genDocStyle(t)
		r := rapidRng{t}
		st := c.style(0)
		n := drawSize(t, o.rows)
		for i := 0; i < n; i++ {
			if skip(t) {
				continue
			}
			c.Items = append(c.Items, docItem{Row: genRow(r, &st)})
		}
		if o.bulk > 0 && drawBulk(t, o.bulk) {
			for i, k := 0, rapid.IntRange(1, 2).Draw(t, "nbulk"); i < k; i++ {
				at := rapid.IntRange(0, len(c.Items)).Draw(t, "at")
				b := docItem{Bulk: drawSize(t, o.bulk), Seed: rapid.Uint64().Draw(t, "seed"), Style: rapid.IntRange(0, 3).Draw(t, "style")}
				c.Items = append(c.Items[:at], append([]docItem{b}, c.Items[at:]...)...)
			}
		}
		if rapid.IntRange(0, 15).Draw(t, "hasbig") == 15 {
			at := rapid.IntRange(0, len(c.Items)).Draw(t, "at")
			c.Items = append(c.Items[:at], append([]docItem{genBig(t)}, c.Items[at:]...)...)
		}
		if o.search {
			for i, k := 0, rapid.IntRange(0, 3).Draw(t, "nsearch"); i < k; i++ {
				s := c.Names[r.n(len(c.Names))]
				if c.Nest && r.n(3) == 0 {
					s += "." + c.Names[r.n(len(c.Names))]
				}
				c.Search = append(c.Search, s)
			}
		}
		if !o.noTail && rapid.IntRange(0, 2).Draw(t, "tail") == 0 {
			c.Tail = genRow(r, &st)
			if k := r.n(len(c.Tail) + 1); k > 0 {
				c.Tail = strings.ToValidUTF8(c.Tail[:k], "?")
			}
		}
		return c
	}
}

// drawBulk says whether a document has runs of rows; where they are the point, most have.
func drawBulk(t *rapid.T, bulk int) bool {
	k := rapid.IntRange(0, 5).Draw(t, "hasbulk")
	return k < 2 || bulk >= 1000 && k < 5
}

func (c *docCase) style(k int) docStyle {
	st := docStyle{Names: c.Names, WS: c.WS, Nest: c.Nest, Fancy: c.Fancy}
	switch k {
	case 1: // regular table-like rows
		st.Flat, st.Nest, st.WS = true, false, 0
	case 2: // few values, many duplicates
		st.Nest, st.Names = false, c.Names[:1]
	case 3:
		st.Long = true
	}
	return st
}

// mostRows bounds the runs of rows of a document with many fields: finding the index of a
// field takes time proportional to their number.
func (c *docCase) mostRows() int {
	n := len(c.Names)
	idx := 4 * n
	if c.Nest {
		idx += min(n*n, 400)
	}
	for _, it := range c.Items {
		if it.Big > 0 && it.Style == 6 {
			idx += 41 + it.Big%210
		}
	}
	return max(50, 5_000_000/max(1, n*idx))
}

// lines expands the document into its complete lines (without newlines).
func (c *docCase) lines() []string {
	var out []string
	most := c.mostRows()
	for _, it := range c.Items {
		if it.Big > 0 {
			out = append(out, bigRow(it, c.Names))
			continue
		}
		if it.Bulk == 0 {
			out = append(out, it.Row)
			continue
		}
		st := c.style(it.Style)
		r := splitmix(it.Seed)
		for i, n := 0, min(it.Bulk, most); i < n; i++ {
			if it.Style == 2 {
				out = append(out, fmt.Sprintf(`{%s:%s}`, quoteJSON(&r, c.Names[0], false), []string{`"dup"`, `"dup"`, `7`, `true`, `null`, `"x"`}[r.n(6)]))
				continue
			}
			out = append(out, genRow(&r, &st))
		}
	}
	return out
}

func (c *docCase) bytes() []byte {
	var b bytes.Buffer
	for _, l := range c.lines() {
		b.WriteString(l)
		b.WriteByte('\n')
	}
	b.WriteString(c.Tail)
	return b.Bytes()
}

// ---- independent JSON reader ----

const (
	tString, tInt, tUint, tNumber, tObject, tArray, tBool, tNull = 0, 1, 2, 3, 4, 5, 6, 7
	tTri, tBi, tUni                                              = 8, 9, 10
)

var typeNames = map[int]string{tString: "string", tNumber: "number", tObject: "object", tArray: "array", tBool: "bool", tNull: "null", tTri: "trigram", tBi: "bigram", tUni: "unigram"}

type occ struct {
	path     string
	typ      int
	str      string // string value
	val      []byte // encoded key
	off, end int    // span of the value text inside the line
}

type jreader struct {
	b    []byte
	i    int
	occs []occ
}

type jerr string

func (j *jreader) fail(s string) { panic(jerr(fmt.Sprintf("%s at byte %d", s, j.i))) }
func (j *jreader) ws() {
	for j.i < len(j.b) && strings.IndexByte(" \t\r\n", j.b[j.i]) >= 0 {
		j.i++
	}
}
func (j *jreader) peek() byte {
	if j.i >= len(j.b) {
		j.fail("unexpected end")
	}
	return j.b[j.i]
}
func (j *jreader) expect(c byte) {
	if j.peek() != c {
		j.fail("expected " + string(c))
	}
	j.i++
}

func (j *jreader) str() string {
	j.expect('"')
	var out []byte
	for {
		c := j.peek()
		switch {
		case c == '"':
			j.i++
			return string(out)
		case c < 0x20:
			j.fail("control character")
		case c == '\\':
			j.i++
			e := j.peek()
			j.i++
			switch e {
			case '"', '\\', '/':
				out = append(out, e)
			case 'b':
				out = append(out, 8)
			case 'f':
				out = append(out, 12)
			case 'n':
				out = append(out, 10)
			case 'r':
				out = append(out, 13)
			case 't':
				out = append(out, 9)
			case 'u':
				x := j.hex4()
				if x >= 0xD800 && x < 0xDC00 && j.i+1 < len(j.b) && j.b[j.i] == '\\' && j.b[j.i+1] == 'u' {
					save := j.i
					j.i += 2
					y := j.hex4()
					if y >= 0xDC00 && y < 0xE000 {
						x = 0x10000 + (x-0xD800)<<10 + (y - 0xDC00)
					} else {
						j.i = save
						x = 0xFFFD
					}
				} else if x >= 0xD800 && x < 0xE000 {
					x = 0xFFFD
				}
				out = utf8.AppendRune(out, x)
			default:
				j.fail("bad escape")
			}
		default:
			out = append(out, c)
			j.i++
		}
	}
}

func (j *jreader) hex4() rune {
	var x rune
	for k := 0; k < 4; k++ {
		p := strings.IndexByte(hexd, j.peek())
		if p < 0 {
			j.fail("bad hex digit")
		}
		if p > 15 {
			p -= 6
		}
		x = x<<4 | rune(p)
		j.i++
	}
	return x
}

func (j *jreader) digits() int {
	k := 0
	for j.i < len(j.b) && j.b[j.i] >= '0' && j.b[j.i] <= '9' {
		j.i++
		k++
	}
	return k
}

func (j *jreader) num() float64 {
	s := j.i
	if j.peek() == '-' {
		j.i++
	}
	if j.peek() == '0' {
		j.i++
	} else if j.digits() == 0 {
		j.fail("bad number")
	}
	if j.i < len(j.b) && j.b[j.i] == '.' {
		j.i++
		if j.digits() == 0 {
			j.fail("bad fraction")
		}
	}
	if j.i < len(j.b) && (j.b[j.i] == 'e' || j.b[j.i] == 'E') {
		j.i++
		if c := j.peek(); c == '+' || c == '-' {
			j.i++
		}
		if j.digits() == 0 {
			j.fail("bad exponent")
		}
	}
	f, err := strconv.ParseFloat(string(j.b[s:j.i]), 64)
	if err != nil {
		j.fail("number out of range")
	}
	return f
}

func (j *jreader) lit(s string) {
	if !bytes.HasPrefix(j.b[j.i:], []byte(s)) {
		j.fail("bad literal")
	}
	j.i += len(s)
}

// value reads one value. Occurrences are recorded for values of object members
// (record true); values inside arrays are only skipped.
func (j *jreader) value(path string, record bool) {
	o := occ{path: path, off: j.i}
	idx := -1
	switch c := j.peek(); {
	case c == '"':
		o.typ, o.str = tString, j.str()
		o.val = []byte(o.str)
	case c == '{':
		if record {
			idx = len(j.occs)
			j.occs = append(j.occs, occ{path: path, typ: tObject, off: j.i})
		}
		j.object(path, true, record)
		if record {
			j.occs[idx].end = j.i
		}
		return
	case c == '[':
		o.typ = tArray
		j.i++
		j.ws()
		if j.peek() == ']' {
			j.i++
			break
		}
		for {
			j.ws()
			j.value("", false)
			j.ws()
			if j.peek() == ',' {
				j.i++
				continue
			}
			j.expect(']')
			break
		}
	case c == 't':
		j.lit("true")
		o.typ, o.val = tBool, []byte{1}
	case c == 'f':
		j.lit("false")
		o.typ, o.val = tBool, []byte{0}
	case c == 'n':
		j.lit("null")
		o.typ, o.val = tNull, []byte{}
	default:
		f := j.num()
		o.typ = tNumber
		o.val = make([]byte, 8)
		binary.BigEndian.PutUint64(o.val, math.Float64bits(f))
	}
	o.end = j.i
	if record {
		j.occs = append(j.occs, o)
	}
}

func (j *jreader) object(path string, nested, record bool) {
	j.expect('{')
	j.ws()
	if j.peek() == '}' {
		j.i++
		return
	}
	for {
		j.ws()
		name := j.str()
		j.ws()
		j.expect(':')
		j.ws()
		p := name
		if nested {
			p = path + "." + name
		}
		j.value(p, record)
		j.ws()
		if j.peek() == ',' {
			j.i++
			continue
		}
		j.expect('}')
		return
	}
}

// parseRow reads one line: the occurrences of values in it, or an error when the line is
// not exactly one JSON object.
func parseRow(line []byte) (occs []occ, err error) {
	j := &jreader{b: line}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(jerr); ok {
				occs, err = nil, fmt.Errorf("%s", string(e))
				return
			}
			panic(r)
		}
	}()
	j.ws()
	j.object("", false, true)
	j.ws()
	if j.i != len(line) {
		j.fail("trailing content")
	}
	return j.occs, nil
}

// ---- independent tokenizer model ----

type gram struct {
	w          string
	first, end int // code point positions in the decomposed text
}

// modelTokens gives the n-grams of a phrase: compatibility decomposition, ASCII only,
// split at white space, letters and digits only, windows of n, lower case.
func modelTokens(s string, n int) []gram {
	type ch struct {
		c   byte
		pos int
	}
	var words [][]ch
	var cur []ch
	pos := 0
	for _, r := range norm.NFKD.String(s) {
		switch {
		case r > 127:
		case r >= '0' && r <= '9' || r >= 'a' && r <= 'z':
			cur = append(cur, ch{byte(r), pos})
		case r >= 'A' && r <= 'Z':
			cur = append(cur, ch{byte(r) + 32, pos})
		case r == ' ' || r >= 9 && r <= 13:
			words = append(words, cur)
			cur = nil
		}
		pos++
	}
	words = append(words, cur)
	var out []gram
	for _, w := range words {
		for i := 0; i+n <= len(w); i++ {
			b := make([]byte, n)
			for k := range b {
				b[k] = w[i+k].c
			}
			out = append(out, gram{string(b), w[i].pos, w[i+n-1].pos + 1})
		}
	}
	return out
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] > 127 {
			return false
		}
	}
	return true
}

// ---- the model of an index ----

type mEntry struct {
	val    []byte
	keyOff uint64 // exact span of the value text in the data file
	keyLen uint32
	row    ptr
	strLen int // n-gram entries: length of the whole value
}

type mIndex struct {
	name    string
	typ     int
	entries []mEntry
	total   uint64
}

type mFile struct {
	entries    uint64
	readOffset uint64
	rows       []ptr
	indexes    []*mIndex // in first-seen order
	by         map[string]*mIndex
	values     int

	gramKeys  map[string]bool
	collision bool // two n-gram entries with one key
	wideGrams bool // a searchable value has non-ASCII text
}

func (m *mFile) idx(name string, typ int) *mIndex {
	k := fmt.Sprintf("%d/%s", typ, name)
	x := m.by[k]
	if x == nil {
		x = &mIndex{name: name, typ: typ}
		m.by[k] = x
		m.indexes = append(m.indexes, x)
	}
	return x
}

// modelJSONL builds the model of the complete lines of data.
func modelJSONL(data []byte, search []string) (*mFile, error) {
	m := &mFile{by: map[string]*mIndex{}}
	off := 0
	for {
		i := bytes.IndexByte(data[off:], '\n')
		if i < 0 {
			break
		}
		line := data[off : off+i]
		occs, err := parseRow(line)
		if err != nil {
			return m, fmt.Errorf("row %d: %w", m.entries, err)
		}
		row := ptr{uint64(off), uint32(i)}
		for _, o := range occs {
			x := m.idx(o.path, o.typ)
			n := uint32(o.end - o.off)
			m.values++
			if o.typ != tObject && o.typ != tArray {
				x.entries = append(x.entries, mEntry{val: o.val, keyOff: uint64(off + o.off), keyLen: n, row: row})
			}
			switch o.typ {
			case tString, tNumber:
				x.total += uint64(n)
			case tBool:
				x.total++
			}
			searchable := false
			for _, s := range search {
				searchable = searchable || s == o.path
			}
			if searchable && o.typ == tString {
				for _, g := range []struct{ typ, n int }{{tUni, 1}, {tBi, 2}, {tTri, 3}} {
					gx := m.idx(o.path, g.typ)
					for _, w := range modelTokens(o.str, g.n) {
						gx.entries = append(gx.entries, mEntry{val: []byte(w.w), row: row, strLen: len(o.str)})
						gx.total += uint64(w.end - w.first)
						// two n-grams cannot be told apart when this coincides (known finding of C10)
						k := fmt.Sprintf("%s/%d/%d/%d", w.w, off+o.off+w.first, len(o.str), len(o.path))
						k += o.path
						if m.gramKeys == nil {
							m.gramKeys = map[string]bool{}
						}
						m.collision = m.collision || m.gramKeys[k]
						m.gramKeys[k] = true
					}
					m.wideGrams = m.wideGrams || !isASCII(o.str)
				}
			}
		}
		m.rows = append(m.rows, row)
		off += i + 1
		m.entries++
		m.readOffset = uint64(off)
	}
	return m, nil
}

// ---- the independent index file reader ----

type rSlot struct {
	root    ptr
	name    string
	typ     int
	width   int
	total   uint64
	entries []entry
	metaRaw []byte
}

type rFile struct {
	version, format byte
	readOffset      uint64
	entries         uint64
	slots           []*rSlot
	pages           int
	treePages       int
}

// readIndex reads an index file following the published layout only, checks that every
// page has exactly one owner, and returns everything stored in it.
func readIndex(raw []byte, csv bool) (*rFile, error) { return readFar(raw, csv, 0) }

// readFar reads a file of which the given number of bytes are pages nobody uses.
func readFar(raw []byte, csv bool, unused int64) (*rFile, error) {
	if len(raw)%4096 != 0 {
		return nil, lerr("file size %d is not a multiple of the page size", len(raw))
	}
	if len(raw) < 3*4096 && len(raw) < 2*4096 {
		return nil, lerr("file of %d bytes is too short", len(raw))
	}
	f := &rFile{pages: len(raw) / 4096}
	seen := map[uint64]bool{0: true}
	// free pages
	for i := 0; i < 4096; i += 8 {
		if o := le64(raw[i:]); o != 0 {
			if o%4096 != 0 || o >= uint64(len(raw)) {
				return nil, lerr("free list entry %d", o)
			}
			if seen[o] {
				return nil, lerr("page %d is free twice", o)
			}
			seen[o] = true
		}
	}
	first := true
	for page := uint64(4096); page != ^uint64(0) && page != 0; {
		if page%4096 != 0 || page+4096 > uint64(len(raw)) {
			return nil, lerr("slot page at %d", page)
		}
		if seen[page] {
			return nil, lerr("page %d is owned twice", page)
		}
		seen[page] = true
		b := raw[page : page+4096]
		next, n := le64(b), int(b[8])
		if n > 15 {
			return nil, lerr("slot page %d holds %d slots", page, n)
		}
		for i := 0; i < n; i++ {
			s := b[9+265*i:]
			ml := int(s[12])
			if 13+ml > 265 {
				return nil, lerr("slot metadata of %d bytes", ml)
			}
			meta := s[13 : 13+ml]
			sl := &rSlot{root: ptr{le64(s), le32(s[8:])}, metaRaw: meta}
			if first {
				first = false
				if ml < 11 {
					return nil, lerr("file metadata of %d bytes", ml)
				}
				f.version, f.format, f.readOffset = meta[0], meta[1], le64(meta[2:])
				pos := 10
				v, err := uvar(meta, &pos)
				if err != nil || pos != ml {
					return nil, lerr("entry count in file metadata")
				}
				f.entries = v
				if sl.root.O != 0 || sl.root.L != 0 {
					return nil, lerr("the metadata slot has a tree")
				}
				continue
			}
			if ml < 7 {
				return nil, lerr("index metadata of %d bytes", ml)
			}
			sl.typ, sl.width = int(le16(meta)), int(le16(meta[2:]))
			nl := int(le16(meta[4:]))
			if 6+nl >= ml {
				return nil, lerr("index name of %d bytes in metadata of %d", nl, ml)
			}
			sl.name = string(meta[6 : 6+nl])
			pos := 6 + nl
			v, err := uvar(meta, &pos)
			if err != nil || pos != ml {
				return nil, lerr("total length in index metadata")
			}
			sl.total = v
			if sl.root.O != 0 {
				w := sl.width
				if csv {
					w = 0
				}
				before := len(seen)
				if err := walkPages(raw, sl.root.O, w, seen, &sl.entries); err != nil {
					return nil, fmt.Errorf("index %q/%d: %w", sl.name, sl.typ, err)
				}
				f.treePages += len(seen) - before
			}
			f.slots = append(f.slots, sl)
		}
		if n == 15 || next == ^uint64(0) || next == 0 {
			page = next
		} else {
			return nil, lerr("slot page %d with %d slots is followed by page %d", page, n, next)
		}
	}
	if first {
		return nil, lerr("no metadata slot")
	}
	if len(seen) != f.pages-int(unused/4096) {
		return nil, lerr("%d of %d pages have no owner", f.pages-len(seen), f.pages)
	}
	return f, nil
}

var typeWidth = map[int]int{tString: 0, tNumber: 9, tObject: 0, tArray: 0, tBool: 2, tNull: 1, tTri: 4, tBi: 3, tUni: 2}

func short(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%q...(%d bytes)", b[:60], len(b))
	}
	return fmt.Sprintf("%q", b)
}

type cmpOpts struct {
	order   bool // slots in first-seen order
	totals  bool
	gtotals bool // totals of n-gram indexes too
	meta    bool // entry count and position
	entries bool
	grams   bool // include n-gram indexes
	csv     bool
}

var cmpAll = cmpOpts{order: true, totals: true, meta: true, entries: true, grams: true}

// compareIndex checks a decoded index file against the model.
func compareIndex(f *rFile, m *mFile, data []byte, o cmpOpts) error {
	if o.meta {
		if f.readOffset != m.readOffset {
			return fmt.Errorf("recorded position %d, want %d", f.readOffset, m.readOffset)
		}
		if !o.csv && f.entries != m.entries {
			return fmt.Errorf("recorded entry count %d, want %d", f.entries, m.entries)
		}
	}
	got := map[string]*rSlot{}
	for i, s := range f.slots {
		k := fmt.Sprintf("%d/%s", s.typ, s.name)
		if got[k] != nil {
			return fmt.Errorf("two indexes for field %q and type %s", s.name, typeNames[s.typ])
		}
		got[k] = s
		if m.by[k] == nil {
			return fmt.Errorf("index for field %q and type %s, which does not occur in the data", s.name, typeNames[s.typ])
		}
		if o.order && i < len(m.indexes) && (m.indexes[i].name != s.name || m.indexes[i].typ != s.typ) {
			return fmt.Errorf("index %d is %q/%s, want %q/%s (first-seen order)", i, s.name, typeNames[s.typ], m.indexes[i].name, typeNames[m.indexes[i].typ])
		}
	}
	for _, x := range m.indexes {
		s := got[fmt.Sprintf("%d/%s", x.typ, x.name)]
		what := fmt.Sprintf("index %q/%s", x.name, typeNames[x.typ])
		if s == nil {
			return fmt.Errorf("no %s", what)
		}
		if s.width != typeWidth[x.typ] {
			return fmt.Errorf("%s has width %d, want %d", what, s.width, typeWidth[x.typ])
		}
		gram := x.typ == tUni || x.typ == tBi || x.typ == tTri
		if o.totals && (!gram || o.gtotals) && s.total != x.total {
			return fmt.Errorf("%s records a total length of %d, want %d", what, s.total, x.total)
		}
		if !o.entries || gram && !o.grams {
			continue
		}
		if len(s.entries) != len(x.entries) {
			return fmt.Errorf("%s holds %d entries, want %d", what, len(s.entries), len(x.entries))
		}
		if err := sameEntries(s.entries, x, data, o.csv); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
	}
	return nil
}

// storedValue resolves the value of a stored key of an index without inline values.
func storedValue(data []byte, p ptr, typ int, csv bool) ([]byte, error) {
	if p.O > uint64(len(data)) || uint64(p.L) > uint64(len(data))-p.O {
		return nil, fmt.Errorf("key points at %d+%d in a file of %d bytes", p.O, p.L, len(data))
	}
	b := data[p.O : p.O+uint64(p.L)]
	if csv {
		_, f, err := splitCSV(string(b))
		if err != nil || len(f) != 1 {
			return nil, fmt.Errorf("key text %s is not a CSV field", short(b))
		}
		v, _ := modelCSVField(f[0])
		return v, nil
	}
	j := &jreader{b: bytes.Trim(b, " \t\r")}
	var s string
	err := func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("key text %s is not a JSON string", short(b))
			}
		}()
		s = j.str()
		return nil
	}()
	if err == nil && j.i != len(j.b) {
		err = fmt.Errorf("key text %s is more than a JSON string", short(b))
	}
	return []byte(s), err
}

func sameEntries(es []entry, x *mIndex, data []byte, csv bool) error {
	gram := x.typ == tUni || x.typ == tBi || x.typ == tTri
	type e2 struct {
		val []byte
		row ptr
		ko  uint64
		kl  uint32
	}
	got := make([]e2, 0, len(es))
	for _, e := range es {
		v := e.val
		if typeWidth[x.typ] == 0 || csv {
			var err error
			if v, err = storedValue(data, e.dp, x.typ, csv); err != nil {
				return err
			}
		}
		g := e2{val: v, row: e.leaf, ko: e.dp.O, kl: e.dp.L}
		if gram {
			g.ko = 0
		} else if !csv {
			// the span may include the white space before the value, nothing else
			if e.dp.O > uint64(len(data)) || uint64(e.dp.L) > uint64(len(data))-e.dp.O {
				return fmt.Errorf("key of value %s points at %d+%d in a file of %d bytes", short(v), e.dp.O, e.dp.L, len(data))
			}
			b := data[e.dp.O : e.dp.O+uint64(e.dp.L)]
			for len(b) > 0 && (b[0] == ' ' || b[0] == '\t' || b[0] == '\r') {
				b = b[1:]
				g.ko++
				g.kl--
			}
		}
		got = append(got, g)
	}
	want := make([]e2, 0, len(x.entries))
	for _, e := range x.entries {
		w := e2{e.val, e.row, e.keyOff, e.keyLen}
		if gram {
			w.ko, w.kl = 0, uint32(e.strLen)
		}
		want = append(want, w)
	}
	cmp := func(a, b e2) int {
		if c := bytes.Compare(a.val, b.val); c != 0 {
			return c
		}
		for _, p := range [][2]uint64{{a.row.O, b.row.O}, {uint64(a.row.L), uint64(b.row.L)}, {a.ko, b.ko}, {uint64(a.kl), uint64(b.kl)}} {
			if p[0] < p[1] {
				return -1
			}
			if p[0] > p[1] {
				return 1
			}
		}
		return 0
	}
	sort.SliceStable(want, func(i, j int) bool { return cmp(want[i], want[j]) < 0 })
	sort.SliceStable(got, func(i, j int) bool { return cmp(got[i], got[j]) < 0 })
	for i := range got {
		if cmp(got[i], want[i]) != 0 {
			return fmt.Errorf("holds value %s -> row %v (key %d+%d), want value %s -> row %v (key %d+%d)",
				short(got[i].val), got[i].row, got[i].ko, got[i].kl, short(want[i].val), want[i].row, want[i].ko, want[i].kl)
		}
	}
	return nil
}

var _ = json.Marshal
