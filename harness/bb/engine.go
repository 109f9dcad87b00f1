package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Failure is a violated property.
type Failure struct {
	Kind  string   // mismatch, crash, hang, ...
	Msg   string   // one line
	Trace []string // what was sent and replied, the last entries matter
}

func mismatch(format string, a ...any) *Failure {
	return &Failure{Kind: "mismatch", Msg: fmt.Sprintf(format, a...)}
}

// Obs collects what one case really did; every number of the evidence comes from here.
type Obs struct {
	nontrivial bool
	labels     map[string]int
	actions    int // commands, operations, bytes streams... executed
}

func (o *Obs) label(l string) {
	if o.labels == nil {
		o.labels = map[string]int{}
	}
	o.labels[l]++
}

// Prop is one property as an executable check over generated cases.
type Prop struct {
	ID    string
	Rule  string // how cases are made, and what makes one non-trivial
	Level string
	// Quick and Thorough are the number of cases.
	Quick, Thorough int
	Workers         int // 0: as many as there are cores
	// Gen makes case i from the generator.
	Gen func(g *Gen, i int) any
	// New returns an empty case for a replay.
	New func() any
	// Run decides one case.
	Run func(e *Env, c any, o *Obs) *Failure
	// Shrink returns smaller variants of a case.
	Shrink func(c any) []any
	// Flaky cases (schedules, random levels) are tried this often before a shrink step is given up.
	Tries int
	// Setup runs once before the first case.
	Setup       func(e *Env)
	Assumptions []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func mix(seed int64, id string, i int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, i)
	x := h.Sum64()
	x ^= x >> 31
	x *= 0x9E3779B97F4A7C15
	x ^= x >> 29
	return int64(x >> 1)
}

func (p *Prop) safeGen(e *Env, i int) (c any, herr error) {
	defer func() {
		if r := recover(); r != nil {
			herr = fmt.Errorf("panic in the generator: %v\n%s", r, debug.Stack())
		}
	}()
	return p.Gen(newGen(mix(e.seed, p.ID, i)), i), nil
}

// safeRun turns a harness error of one case into a value.
func (p *Prop) safeRun(e *Env, c any, o *Obs) (f *Failure, herr error) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(HarnessError); ok {
				herr = h
				return
			}
			herr = fmt.Errorf("panic in the harness: %v\n%s", r, debug.Stack())
		}
	}()
	return p.Run(e, c, o), nil
}

type replayFile struct {
	Property string          `json:"property"`
	Seed     int64           `json:"seed"`
	Index    int             `json:"index"`
	Kind     string          `json:"kind"`
	Message  string          `json:"message"`
	Confirm  string          `json:"confirmed"`
	Trace    []string        `json:"trace"`
	Case     json.RawMessage `json:"case"`
}

func fail(code int, format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(code)
}

func main() {
	var (
		e      = &Env{built: map[string]string{}, pools: map[string]*serverPool{}, kids: map[string][]*child{}}
		id     = flag.String("prop", "", "property id")
		replay = flag.String("replay", "", "replay file")
		cases  = flag.Int("cases", 0, "number of cases (development)")
		only   = flag.Int("only", -1, "run one case only (development)")
		build  = flag.Bool("build-only", false, "build everything, check nothing")
	)
	flag.StringVar(&e.repo, "repo", "/repo", "code under test")
	flag.StringVar(&e.verif, "verif", "/verif", "framework")
	flag.StringVar(&e.scratch, "scratch", "", "scratch directory")
	flag.StringVar(&e.tier, "tier", "quick", "quick or thorough")
	flag.Int64Var(&e.seed, "seed", 1, "seed")
	flag.IntVar(&e.workers, "workers", 8, "parallel cases")
	flag.BoolVar(&e.noShrink, "noshrink", false, "do not confirm or shrink (development)")
	flag.Parse()
	if *build {
		e.prepareInproc()
		for _, v := range []string{"default", "debug", "v1", "gen"} {
			e.serverBin(v)
		}
		e.childBins()
		return
	}
	p := props[*id]
	if p == nil {
		fail(2, "unknown property %q", *id)
	}
	if p.Workers > 0 {
		e.workers = min(e.workers, p.Workers)
	}
	if p.Tries == 0 {
		p.Tries = 3
	}
	defer func() {
		if r := recover(); r != nil {
			e.closeAll()
			fail(3, "harness error: %v", r)
		}
	}()
	e.prepareInproc()
	if p.Setup != nil {
		p.Setup(e)
	}
	if *replay != "" {
		code := p.replay(e, *replay)
		os.Exit(code)
	}
	os.Exit(p.search(e, *cases, *only))
}

func (e *Env) closeAll() {
	e.closePools()
	e.closeChildren()
}

func (p *Prop) replay(e *Env, path string) int {
	defer e.closeAll()
	b, err := os.ReadFile(path)
	if err != nil {
		fail(2, "%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fail(2, "%s: %v", path, err)
	}
	c := p.New()
	if err := json.Unmarshal(rf.Case, c); err != nil {
		fail(2, "%s: %v", path, err)
	}
	for i := 0; i < max(20, p.Tries); i++ {
		f, herr := p.safeRun(e, c, &Obs{})
		if herr != nil {
			e.closeAll()
			fail(3, "harness error: %v", herr)
		}
		if f != nil {
			printFailure(f)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			return 1
		}
	}
	fmt.Printf("%s: the replayed case holds\n", p.ID)
	return 0
}

func printFailure(f *Failure) {
	t := f.Trace
	if len(t) > 60 {
		fmt.Printf("  ... %d earlier steps\n", len(t)-60)
		t = t[len(t)-60:]
	}
	for _, l := range t {
		fmt.Println("  " + l)
	}
	fmt.Printf("%s: %s\n", f.Kind, f.Msg)
}

type found struct {
	i int
	c any
	f *Failure
}

func (p *Prop) search(e *Env, cases, only int) int {
	start := time.Now()
	n := p.Quick
	limit := 400 * time.Second
	if e.tier == "thorough" {
		n, limit = p.Thorough, 40*time.Minute
	}
	if cases > 0 {
		n = cases
	}
	var (
		mu        sync.Mutex
		next      int64 = -1
		total     Obs
		evals     int
		seen      = map[uint64]bool{}
		samples   []json.RawMessage
		hits      []found
		herr      error
		undecided int
		wg        sync.WaitGroup
		stopped   atomic.Bool
		timedOut  atomic.Bool
	)
	total.labels = map[string]int{}
	one := func(i int) {
		o := &Obs{}
		var f *Failure
		c, err := p.safeGen(e, i)
		if err == nil {
			f, err = p.safeRun(e, c, o)
		}
		b, jerr := json.Marshal(c)
		if jerr != nil {
			err = jerr
		}
		h := fnv.New64a()
		h.Write(b)
		mu.Lock()
		defer mu.Unlock()
		if err != nil { // a case the harness could not decide; too many are no answer
			undecided++
			if herr == nil {
				herr = fmt.Errorf("case %d: %w", i, err)
				fmt.Fprintf(os.Stderr, "%s: undecided: %v\n", p.ID, herr)
			}
			if undecided > 2+n/200 {
				stopped.Store(true)
			}
			return
		}
		evals++
		total.actions += o.actions
		for l, k := range o.labels {
			total.labels[l] += k
		}
		if o.nontrivial && !seen[h.Sum64()] {
			seen[h.Sum64()] = true
			if len(samples) < 3 && len(b) < 3000 || len(samples) == 0 {
				if len(b) > 6000 {
					b, _ = json.Marshal(string(b[:6000]) + "... (truncated)")
				}
				samples = append(samples, b)
			}
		}
		if f != nil {
			hits = append(hits, found{i, c, f})
			stopped.Store(true)
		}
	}
	violations, late := 0, 0
	var replayPath string
	for {
		for w := 0; w < e.workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for !stopped.Load() {
					i := int(atomic.AddInt64(&next, 1))
					if only >= 0 {
						if i > 0 {
							return
						}
						i = only
					}
					if i >= n {
						return
					}
					if time.Since(start) > limit {
						timedOut.Store(true)
						return
					}
					one(i)
				}
			}()
		}
		wg.Wait()
		if len(hits) == 0 {
			break
		}
		sort.Slice(hits, func(a, b int) bool { // hangs last: they take long and need not count
			if h, k := hits[a].f.Kind == "hang", hits[b].f.Kind == "hang"; h != k {
				return k
			}
			return hits[a].i < hits[b].i
		})
		began := time.Now()
		for _, h := range hits {
			if violations > 0 || time.Since(began) > 200*time.Second {
				break // one is enough
			}
			c, f, confirm := h.c, h.f, ""
			if !e.noShrink {
				c, f, confirm = p.confirm(e, h.c, h.f)
			}
			if f == nil {
				fmt.Fprintf(os.Stderr, "%s: case %d did not answer in time once, and did in every repetition: inconclusive\n", p.ID, h.i)
				late++
				continue
			}
			violations++
			if replayPath == "" {
				replayPath = p.writeReplay(e, h.i, c, f, confirm)
				printFailure(f)
				fmt.Printf("case %d of seed %d, %s\n", h.i, e.seed, confirm)
			}
		}
		if violations > 0 || late > 20 {
			break
		}
		hits = nil // none was one: go on
		if undecided <= 2+n/200 {
			stopped.Store(false)
		}
	}
	e.closeAll()
	if violations == 0 && undecided > 2+n/200 {
		fail(3, "harness error: %v", herr)
	}
	cov := map[string]any{
		"evaluations":         evals,
		"distinct_nontrivial": len(seen),
		"rule":                p.Rule,
		"samples":             samples,
		"actions":             total.actions,
		"classes":             total.labels,
		"planned_cases":       n,
	}
	if undecided > 0 {
		cov["undecided_cases"] = undecided
	}
	if late > 0 {
		cov["late_once"] = late
	}
	if timedOut.Load() {
		cov["stopped_by_time_limit"] = true
	}
	if k := atomic.LoadInt64(&slow); k > 0 {
		cov["replies_slower_than_1s"] = k
	}
	if len(samples) == 0 {
		cov["samples"] = []string{}
	}
	level := p.Level
	if level == "" {
		level = "exploration"
	}
	ev := map[string]any{
		"property": p.ID, "tier": e.tier, "seed": e.seed, "level": level, "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": violations, "assumptions": p.Assumptions,
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(e.verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(e.verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fail(3, "%v", err)
	}
	if violations > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replayPath)
		return 1
	}
	fmt.Printf("%s: held on %d cases (%d distinct and non-trivial), %d actions, %.1f s\n", p.ID, evals, len(seen), total.actions, time.Since(start).Seconds())
	var ls []string
	for l, k := range total.labels {
		ls = append(ls, fmt.Sprintf("%s=%d", l, k))
	}
	sort.Strings(ls)
	fmt.Println("  " + strings.Join(ls, " "))
	return 0
}

// confirm repeats a failing case, and shrinks it if it fails again.
// A hang only counts if it is seen again: a late reply is not a wrong one.
func (p *Prop) confirm(e *Env, c any, f *Failure) (any, *Failure, string) {
	try := func(c any, n int) *Failure {
		for k := 0; k < n; k++ {
			f, err := p.safeRun(e, c, &Obs{})
			if err != nil {
				return nil
			}
			if f != nil {
				return f
			}
		}
		return nil
	}
	tries := max(p.Tries, 3)
	again := try(c, tries*3)
	if again == nil {
		if f.Kind == "hang" {
			return c, nil, ""
		}
		return c, f, fmt.Sprintf("seen once, the trace is the evidence (not again in %d repetitions)", tries*3)
	}
	f = again
	deadline := time.Now().Add(60 * time.Second)
	if f.Kind == "hang" {
		deadline = time.Now().Add(120 * time.Second)
	}
	steps := 0
	if p.Shrink != nil {
	shrink:
		for time.Now().Before(deadline) {
			for _, d := range p.Shrink(c) {
				if time.Now().After(deadline) {
					break shrink
				}
				if reflect.DeepEqual(c, d) {
					continue
				}
				if g := try(d, p.Tries); g != nil {
					c, f = d, g
					steps++
					continue shrink
				}
			}
			break
		}
	}
	return c, f, fmt.Sprintf("reproduced and shrunk in %d steps", steps)
}

func (p *Prop) writeReplay(e *Env, i int, c any, f *Failure, confirm string) string {
	b, err := json.Marshal(c)
	if err != nil {
		fail(3, "%v", err)
	}
	t := f.Trace
	if len(t) > 400 {
		t = t[len(t)-400:]
	}
	out, _ := json.MarshalIndent(replayFile{p.ID, e.seed, i, f.Kind, f.Msg, confirm, t, b}, "", " ")
	dir := filepath.Join(e.verif, "replays")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", p.ID, e.tier, e.seed))
	if err := os.WriteFile(path, append(out, '\n'), 0o644); err != nil {
		fail(3, "%v", err)
	}
	return path
}

// ddmin proposes the case with chunks of a list removed, big chunks first.
func dropChunks(n int, keep func(from, to int) any) []any {
	var out []any
	for size := n / 2; size >= 1 && (n <= 300 || size > n/64); size /= 2 { // of long lists only big chunks
		for from := 0; from+size <= n; from += size {
			out = append(out, keep(from, from+size))
		}
		if size > 1 && n%size != 0 {
			out = append(out, keep(n-n%size, n))
		}
	}
	if n == 1 {
		out = append(out, keep(0, 1))
	}
	return out
}

// Gen is the random source of one case.
type Gen struct{ *rand.Rand }

func newGen(seed int64) *Gen { return &Gen{rand.New(rand.NewSource(seed))} }

func (g *Gen) chance(p float64) bool { return g.Float64() < p }

func pick[T any](g *Gen, xs []T) T { return xs[g.Intn(len(xs))] }

// between is uniform in lo..hi.
func (g *Gen) between(lo, hi int) int { return lo + g.Intn(hi-lo+1) }
