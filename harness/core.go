// Package main is the Go half of the property-testing framework. Each property
// is a set of "subs": a rapid generator producing a JSON-serialisable case and a
// pure function judging one case against an explicit oracle. The driver runs the
// generated search, lets rapid shrink a failure, and writes the shrunk case as a
// replay file which can be re-run without rapid (-replay).
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log/slog"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Ctx is handed to the judge of one case; it collects classification labels.
type Ctx struct {
	labels     map[string]bool
	nontrivial bool
	scratch    string // directory owned by the driver, may be used for files
}

func (c *Ctx) Label(s string) { c.labels[s] = true }
func (c *Ctx) Labelf(cond bool, s string) {
	if cond {
		c.labels[s] = true
	}
}

// NT marks the case as non-trivial.
func (c *Ctx) NT(cond bool) {
	if cond {
		c.nontrivial = true
	}
}

// Dir returns a fresh scratch directory for this case, removed afterwards.
func (c *Ctx) Dir() string {
	d, err := os.MkdirTemp(c.scratch, "case")
	if err != nil {
		panic(harnessError{err})
	}
	return d
}

// harnessError marks a problem of the harness or the environment, which must never be
// reported as a violation.
type harnessError struct{ err error }

func (h harnessError) Error() string { return "harness error: " + h.err.Error() }

// Sub is one generated search belonging to a property.
type Sub struct {
	Name            string
	Quick, Thorough int // number of cases over all shards
	search          func(d *driver, s *Sub, n int)
	replay          func(raw json.RawMessage, c *Ctx) error
	// finding subs: a fixed history demonstrating a recorded known finding
	finding func(c *Ctx) error
}

type Property struct {
	ID   string
	Rule string
	Subs []*Sub
}

var registry = map[string]*Property{}

func register(id, rule string, subs ...*Sub) {
	registry[id] = &Property{ID: id, Rule: rule, Subs: subs}
}

// sub builds a generated search over cases of type C.
func sub[C any](name string, quick, thorough int, gen func(*rapid.T) C, judge func(C, *Ctx) error) *Sub {
	run := func(c C, ctx *Ctx) (err error) {
		// a fault in mapped memory is a failure to shrink, not the end of the process
		defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
		defer func() {
			if r := recover(); r != nil {
				if he, ok := r.(harnessError); ok {
					panic(he)
				}
				err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
			}
		}()
		return judge(c, ctx)
	}
	return &Sub{
		Name: name, Quick: quick, Thorough: thorough,
		search: func(d *driver, s *Sub, n int) {
			d.rapid(s, n, func(t *rapid.T) {
				c := gen(t)
				raw, err := json.Marshal(c)
				if err != nil {
					panic(harnessError{err})
				}
				// judge what is written to a replay file: the decoded form
				var c2 C
				if err := json.Unmarshal(raw, &c2); err != nil {
					panic(harnessError{err})
				}
				if err := d.one(s, raw, func(ctx *Ctx) error { return run(c2, ctx) }); err != nil {
					t.Fatalf("property violated")
				}
			})
		},
		replay: func(raw json.RawMessage, ctx *Ctx) error {
			var c C
			if err := json.Unmarshal(raw, &c); err != nil {
				panic(harnessError{err})
			}
			return run(c, ctx)
		},
	}
}

// finding is a fixed history that fails because of a genuine defect that is recorded in
// the known-findings file under key name. It is reported as KNOWN-FINDING when listed and
// as a violation when not.
func finding(name string, f func(c *Ctx) error) *Sub {
	return &Sub{Name: "finding-" + name, finding: func(ctx *Ctx) (err error) {
		defer func() {
			if r := recover(); r != nil {
				if he, ok := r.(harnessError); ok {
					panic(he)
				}
				err = fmt.Errorf("panic: %v", r)
			}
		}()
		return f(ctx)
	}, replay: func(raw json.RawMessage, ctx *Ctx) error { return f(ctx) }}
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

type violation struct {
	Sub    string `json:"sub"`
	Replay string `json:"replay"`
	Error  string `json:"error"`
}

type result struct {
	Property    string              `json:"property"`
	Evaluations int                 `json:"evaluations"`
	Nontrivial  []string            `json:"nontrivial"` // hashes of distinct non-trivial cases
	Labels      map[string]int      `json:"labels"`
	PerSub      map[string]int      `json:"per_sub"`
	Samples     []json.RawMessage   `json:"samples"`
	Rule        string              `json:"rule"`
	Violations  []violation         `json:"violations"`
	Findings    []map[string]string `json:"findings"`
	Stale       []string            `json:"stale"`
}

type replayFile struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}

type driver struct {
	prop      *Property
	seed      uint64
	outDir    string
	scratch   string
	known     map[string]string
	res       *result
	nt        map[uint64]bool
	perSubSmp map[string]int
	trace     io.Writer
	lastFail  json.RawMessage
	lastErr   error
	beat      atomic.Int64
	cur       atomic.Pointer[replayFile] // the case being judged
}

func (d *driver) one(s *Sub, raw json.RawMessage, f func(*Ctx) error) error {
	d.beat.Store(time.Now().UnixNano())
	d.cur.Store(&replayFile{Property: d.prop.ID, Sub: s.Name, Case: raw})
	defer d.cur.Store(nil)
	if d.trace != nil {
		b, _ := json.Marshal(replayFile{Property: d.prop.ID, Sub: s.Name, Error: "process died while judging this case", Case: raw})
		os.WriteFile(filepath.Join(d.outDir, "trace.json"), b, 0o644)
	}
	ctx := &Ctx{labels: map[string]bool{}, scratch: d.scratch}
	err := f(ctx)
	d.res.Evaluations++
	d.res.PerSub[s.Name]++
	for l := range ctx.labels {
		d.res.Labels[s.Name+":"+l]++
	}
	if ctx.nontrivial {
		h := fnv.New64a()
		h.Write([]byte(s.Name))
		h.Write(raw)
		k := h.Sum64()
		if !d.nt[k] {
			d.nt[k] = true
			// keep a few reasonably small samples of each sub
			if len(raw) < 6000 && d.perSubSmp[s.Name] < 2 {
				d.perSubSmp[s.Name]++
				b, _ := json.Marshal(map[string]any{"sub": s.Name, "labels": keys(ctx.labels), "case": raw})
				d.res.Samples = append(d.res.Samples, b)
			}
		}
	}
	if err != nil {
		d.lastFail, d.lastErr = raw, err
	}
	// remove whatever files the case left
	ents, _ := os.ReadDir(d.scratch)
	for _, e := range ents {
		os.RemoveAll(filepath.Join(d.scratch, e.Name()))
	}
	return err
}

func keys(m map[string]bool) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// rapidTB lets rapid run outside of "go test".
type rapidTB struct {
	name   string
	failed bool
	logs   []string
}

func (t *rapidTB) Helper()                  {}
func (t *rapidTB) Name() string             { return t.name }
func (t *rapidTB) Logf(f string, a ...any)  { t.logs = append(t.logs, fmt.Sprintf(f, a...)) }
func (t *rapidTB) Log(a ...any)             { t.logs = append(t.logs, fmt.Sprint(a...)) }
func (t *rapidTB) Skipf(f string, a ...any) { t.Logf(f, a...); runtime.Goexit() }
func (t *rapidTB) Skip(a ...any)            { t.Log(a...); runtime.Goexit() }
func (t *rapidTB) SkipNow()                 { runtime.Goexit() }
func (t *rapidTB) Errorf(f string, a ...any) {
	t.Logf(f, a...)
	t.failed = true
}
func (t *rapidTB) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *rapidTB) Fatalf(f string, a ...any) { t.Errorf(f, a...); runtime.Goexit() }
func (t *rapidTB) Fatal(a ...any)            { t.Error(a...); runtime.Goexit() }
func (t *rapidTB) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *rapidTB) Fail()                     { t.failed = true }
func (t *rapidTB) Failed() bool              { return t.failed }

func (d *driver) rapid(s *Sub, n int, prop func(*rapid.T)) {
	if n <= 0 {
		return
	}
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d", d.prop.ID, s.Name, d.seed)
	seed := h.Sum64()
	if seed == 0 {
		seed = 1
	}
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "25s")
	d.lastFail, d.lastErr = nil, nil
	tb := &rapidTB{name: "no-such-test"}
	var he error
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				he = fmt.Errorf("driver panic: %v\n%s", r, debug.Stack())
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			defer func() {
				if r := recover(); r != nil {
					if x, ok := r.(harnessError); ok {
						he = x
					}
					panic(r)
				}
			}()
			prop(t)
		})
	}()
	<-done
	if he != nil {
		fatal("%s/%s: %v", d.prop.ID, s.Name, he)
	}
	if tb.failed {
		if d.lastFail == nil {
			fatal("%s/%s: generator problem: %s", d.prop.ID, s.Name, strings.Join(tb.logs, "\n"))
		}
		d.violated(s, d.lastFail, d.lastErr)
	}
}

func (d *driver) violated(s *Sub, raw json.RawMessage, err error) {
	name := filepath.Join(d.outDir, fmt.Sprintf("%s-%s.json", d.prop.ID, s.Name))
	b, _ := json.MarshalIndent(replayFile{Property: d.prop.ID, Sub: s.Name, Error: err.Error(), Case: raw}, "", " ")
	if e := os.WriteFile(name, b, 0o644); e != nil {
		fatal("%v", e)
	}
	d.res.Violations = append(d.res.Violations, violation{Sub: s.Name, Replay: name, Error: err.Error()})
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "ERROR: "+f+"\n", a...)
	os.Exit(2)
}

// loadKnown parses lines "KNOWN-FINDING: property=<id> key=<name> <text>".
func loadKnown(path string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "KNOWN-FINDING: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "KNOWN-FINDING: "), " ", 3)
		if len(f) == 3 && strings.HasPrefix(f[0], "property=") && strings.HasPrefix(f[1], "key=") {
			m[f[0][9:]+"/"+f[1][4:]] = f[2]
		}
	}
	return m
}

func main() {
	testing.Init()
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	shard := flag.Int("shard", 0, "shard number")
	shards := flag.Int("shards", 1, "number of shards")
	out := flag.String("out", ".", "output directory")
	knownPath := flag.String("known", "", "known-findings file")
	replay := flag.String("replay", "", "replay file")
	trace := flag.Bool("trace", false, "record each case before judging it")
	golden := flag.String("golden", "", "write stored index files (run once against the pinned version)")
	serve := flag.Bool("serve", false, "build index files for the TypeScript half")
	onlySub := flag.String("sub", "", "only this sub")
	scale := flag.Float64("scale", 1, "scale case counts")
	flag.Parse()
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.Level(100)})))
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(400)

	if *golden != "" {
		writeGolden(*golden)
		return
	}
	if *serve {
		serveMain(bufio.NewReaderSize(os.Stdin, 1<<20), bufio.NewWriter(os.Stdout))
		return
	}

	scratch, err := os.MkdirTemp(*out, "scratch")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(scratch)

	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fatal("%v", err)
		}
		var rf replayFile
		if err := json.Unmarshal(b, &rf); err != nil {
			fatal("%v", err)
		}
		p := registry[rf.Property]
		if p == nil {
			fatal("unknown property %s", rf.Property)
		}
		for _, s := range p.Subs {
			if s.Name == rf.Sub {
				ctx := &Ctx{labels: map[string]bool{}, scratch: scratch}
				d := &driver{prop: p, outDir: *out, scratch: scratch}
				d.cur.Store(&rf)
				d.beat.Store(time.Now().Add(stuckAfter).UnixNano()) // twice the time
				go d.watch()
				err := s.replay(rf.Case, ctx)
				fmt.Println("labels:", keys(ctx.labels))
				if err != nil {
					fmt.Printf("REPLAY FAILS: %v\n", err)
					os.RemoveAll(scratch)
					os.Exit(1)
				}
				fmt.Println("REPLAY PASSES")
				return
			}
		}
		fatal("unknown sub %s", rf.Sub)
	}

	p := registry[*prop]
	if p == nil {
		fatal("unknown property %q", *prop)
	}
	d := &driver{prop: p, seed: *seed*1000 + uint64(*shard), outDir: *out, scratch: scratch,
		known: loadKnown(*knownPath), nt: map[uint64]bool{}, perSubSmp: map[string]int{},
		res: &result{Property: p.ID, Labels: map[string]int{}, PerSub: map[string]int{}, Rule: p.Rule}}
	if *trace {
		d.trace = os.Stderr
	}
	d.beat.Store(time.Now().UnixNano())
	go d.watch()
	for _, s := range p.Subs {
		if *onlySub != "" && s.Name != *onlySub {
			continue
		}
		if s.finding != nil {
			if *shard != 0 {
				continue
			}
			ctx := &Ctx{labels: map[string]bool{}, scratch: scratch}
			err := s.finding(ctx)
			key := strings.TrimPrefix(s.Name, "finding-")
			text, listed := d.known[p.ID+"/"+key]
			switch {
			case err == nil && listed:
				d.res.Stale = append(d.res.Stale, key)
			case err == nil:
			case listed:
				d.res.Findings = append(d.res.Findings, map[string]string{"key": key, "text": text, "observed": firstLine(err.Error())})
			default:
				d.violated(s, json.RawMessage(`"fixed history"`), err)
			}
			d.res.Evaluations++
			d.res.PerSub[s.Name]++
			continue
		}
		n := s.Quick
		if *tier == "thorough" {
			n = s.Thorough
		}
		n = int(float64(n) * *scale)
		per := n / *shards
		if *shard < n%*shards {
			per++
		}
		s.search(d, s, per)
	}
	for k := range d.nt {
		d.res.Nontrivial = append(d.res.Nontrivial, strconv.FormatUint(k, 36))
	}
	sort.Strings(d.res.Nontrivial)
	b, err := json.Marshal(d.res)
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(filepath.Join(*out, "result.json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
}

// watch ends the process with status 3 when a case runs away: it has not finished after
// stuckAfter, or holds more than stuckHeap bytes of live heap. The driver then judges that
// case alone, with a longer limit, before anything is reported.
func (d *driver) watch() {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(200 * time.Millisecond)
		metrics.Read(sample)
		heap := sample[0].Value.Uint64()
		age := time.Since(time.Unix(0, d.beat.Load()))
		c := d.cur.Load()
		if age < stuckAfter && heap < stuckHeap || c == nil && age < 10*stuckAfter {
			continue
		}
		if c == nil {
			fatal("stuck outside of a case")
		}
		buf := make([]byte, 1<<15)
		n := runtime.Stack(buf, true)
		c.Error = fmt.Sprintf("a case does not finish: %.0f s, %d MB of heap\n%s", age.Seconds(), heap>>20, buf[:n])
		b, _ := json.Marshal(c)
		os.WriteFile(filepath.Join(d.outDir, "stuck.json"), b, 0o644)
		os.RemoveAll(d.scratch)
		fmt.Fprintln(os.Stderr, "STUCK:", c.Error)
		os.Exit(3)
	}
}

const (
	stuckAfter = 60 * time.Second
	stuckHeap  = 3 << 30
)

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

var errNoCase = errors.New("no case")
