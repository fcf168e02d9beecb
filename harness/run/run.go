// Package run drives the monitors: it derives all randomness of a case from
// (seed, property, case index), runs the cases in worker processes, turns a
// dying or silent worker into a verdict, applies the known-findings list and
// writes the evidence file.
package run

import (
	"bufio"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"
)

// Prop is one property check.
type Prop struct {
	ID    string
	Level string
	Rule  string
	// Quick and Thorough are the numbers of generated cases
	Quick, Thorough int
	// Init runs once per worker
	Init func(tier string)
	// Case runs case c.Index; the first len(Fixed) cases are Fixed
	Case  func(c *Case)
	Fixed []Fixed
	// FixedFn makes further fixed cases (run-time lists); called after Init
	FixedFn func(tier string) []Fixed
	// Need are minimal counter values: less is an inconclusive run
	Need map[string]int64
	// Assumptions for the evidence
	Assumptions []string
	Workers     int
	// Timeout per case (watchdog), default 120 s
	Timeout time.Duration
	// CrashIsViolation: a dying worker refutes the property (default true)
	CrashInconclusive bool
	// Post runs in the parent over all counters
	Post func(cnt map[string]int64, fail func(sig, detail string))
}

// Fixed is a named, deterministic case.
type Fixed struct {
	Name string
	Fn   func(c *Case)
}

// Case is one case.
type Case struct {
	Prop, Tier string
	Seed       int64
	Index      int
	Name       string
	R          *rand.Rand
	sink       *sink
	trace      []string
	failed     bool
	nontrivial bool
}

type violation struct {
	Sig, Detail, Name string
	Index             int
	Trace             []string
}

type sink struct {
	mu       sync.Mutex
	Counters map[string]int64
	Distinct map[uint64]struct{}
	Samples  []string
	Viol     []violation
	Cases    int64
}

// Count adds to a counter.
func (c *Case) Count(name string, n int64) {
	c.sink.mu.Lock()
	c.sink.Counters[name] += n
	c.sink.mu.Unlock()
}

// Distinct records an observation; distinct values are counted as the
// non-trivial coverage of the run.
func (c *Case) Distinct(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v|", p)
	}
	c.sink.mu.Lock()
	c.sink.Distinct[h.Sum64()] = struct{}{}
	c.sink.mu.Unlock()
	c.nontrivial = true
}

// Sample keeps a description of what a case did (first few per worker).
func (c *Case) Sample(format string, a ...interface{}) {
	c.sink.mu.Lock()
	if len(c.sink.Samples) < 3 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.sink.Samples = append(c.sink.Samples, s)
	}
	c.sink.mu.Unlock()
}

// Tracef records a step for the replay file.
func (c *Case) Tracef(format string, a ...interface{}) {
	if len(c.trace) < 4000 {
		c.trace = append(c.trace, fmt.Sprintf(format, a...))
	}
}

// Trace returns the recorded steps.
func (c *Case) Trace() []string { return c.trace }

// Failf reports a violation. sig identifies what fails, independent of the
// random values of the case.
func (c *Case) Failf(sig string, format string, a ...interface{}) {
	c.sink.mu.Lock()
	defer c.sink.mu.Unlock()
	c.failed = true
	n := 0
	for _, v := range c.sink.Viol {
		if v.Sig == sig {
			n++
		}
	}
	c.sink.Counters["divergences"]++
	if n >= 2 {
		return
	}
	c.sink.Viol = append(c.sink.Viol, violation{Sig: sig, Detail: fmt.Sprintf(format, a...), Name: c.Name, Index: c.Index, Trace: append([]string{}, c.trace...)})
}

// Failed tells whether the case already failed.
func (c *Case) Failed() bool { return c.failed }

func newRand(seed int64, prop string, index int) *rand.Rand {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%d", seed, prop, index)))
	return rand.New(rand.NewSource(int64(binary.LittleEndian.Uint64(h[:8]) >> 1)))
}

type workerResult struct {
	Counters map[string]int64
	Distinct []uint64
	Samples  []string
	Viol     []violation
	Cases    int64
}

type known struct {
	Property    string `json:"property"`
	Signature   string `json:"signature"`
	Description string `json:"description"`
	Status      string `json:"status"`
}

// Main runs the chosen property of the given ones.
func Main(props []*Prop) {
	id := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	out := flag.String("out", "", "evidence file")
	replayDir := flag.String("replays", "", "directory of replay files")
	knownFile := flag.String("known", "", "known findings")
	worker := flag.String("worker", "", "k/n (internal)")
	start := flag.Int("start", 0, "first case (internal)")
	status := flag.String("status", "", "status file (internal)")
	only := flag.Int("case", -1, "run this case only, with its trace")
	ncases := flag.Int("cases", 0, "override the number of cases")
	nworkers := flag.Int("workers", 0, "override the number of workers")
	flag.Parse()
	var p *Prop
	for _, q := range props {
		if q.ID == *id {
			p = q
		}
	}
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(2)
	}
	n := p.Quick
	if *tier == "thorough" {
		n = p.Thorough
	}
	if *ncases > 0 {
		n = *ncases
	}
	if *only >= 0 {
		s := newSink()
		if p.Init != nil {
			p.Init(*tier)
		}
		runCase(p, *tier, *seed, *only, s, fixedOf(p, *tier), true)
		for _, v := range s.Viol {
			fmt.Printf("DIVERGENCE %s\n  %s\n", v.Sig, v.Detail)
		}
		fmt.Println(s.Counters)
		if len(s.Viol) > 0 {
			os.Exit(1)
		}
		return
	}
	if *worker != "" {
		workerMain(p, *tier, *seed, *worker, *start, n, *status)
		return
	}
	os.Exit(parent(p, *tier, *seed, n, *nworkers, *out, *replayDir, *knownFile))
}

func newSink() *sink {
	return &sink{Counters: map[string]int64{}, Distinct: map[uint64]struct{}{}}
}

func fixedOf(p *Prop, tier string) []Fixed {
	f := p.Fixed
	if p.FixedFn != nil {
		f = append(append([]Fixed{}, f...), p.FixedFn(tier)...)
	}
	return f
}

// Skip ends a case early.
type Skip struct{}

func runCase(p *Prop, tier string, seed int64, i int, s *sink, fixed []Fixed, verbose bool) {
	c := &Case{Prop: p.ID, Tier: tier, Seed: seed, Index: i, R: newRand(seed, p.ID, i), sink: s}
	defer func() {
		if verbose {
			for _, t := range c.trace {
				fmt.Println("  " + t)
			}
		}
		if r := recover(); r != nil {
			if _, ok := r.(Skip); ok {
				return
			}
			st := string(debug.Stack())
			c.Failf("panic: "+firstLine(fmt.Sprint(r))+" in "+panicSite(st), "%v\n%s", r, st)
		}
	}()
	s.mu.Lock()
	s.Cases++
	s.mu.Unlock()
	if i < len(fixed) {
		c.Name = fixed[i].Name
		fixed[i].Fn(c)
		return
	}
	c.Name = "random"
	p.Case(c)
}

// Guard runs fn (in another goroutine than the case's) and reports a panic.
func (c *Case) Guard(fn func()) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			c.Failf("panic: "+firstLine(fmt.Sprint(r))+" in "+panicSite(st), "%v\n%s", r, st)
		}
	}()
	fn()
}

func firstLine(s string) string {
	if k := strings.IndexByte(s, '\n'); k >= 0 {
		s = s[:k]
	}
	if len(s) > 160 {
		s = s[:160]
	}
	return s
}

// panicSite names the first function of the repository in a stack.
func panicSite(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if k := strings.Index(l, "arwen-wasm-vm/v1_3/"); k >= 0 && !strings.HasPrefix(l, "\t") {
			f := l[k+len("arwen-wasm-vm/v1_3/"):]
			if j := strings.LastIndexByte(f, '('); j > 0 {
				f = f[:j]
			}
			return f
		}
	}
	return "?"
}

func workerMain(p *Prop, tier string, seed int64, spec string, start, n int, status string) {
	var k, m int
	fmt.Sscanf(spec, "%d/%d", &k, &m)
	s := newSink()
	if p.Init != nil {
		p.Init(tier)
	}
	fixed := fixedOf(p, tier)
	st, err := os.OpenFile(status, os.O_CREATE|os.O_RDWR, 0600)
	if err != nil {
		panic(err)
	}
	total := len(fixed)
	if p.Case != nil {
		total += n
	}
	if s.Counters["fixed_cases"] = 0; k == 0 {
		s.Counters["fixed_cases"] = int64(len(fixed))
	}
	flush := func() {
		r := workerResult{Counters: s.Counters, Samples: s.Samples, Viol: s.Viol, Cases: s.Cases}
		for d := range s.Distinct {
			r.Distinct = append(r.Distinct, d)
		}
		b, err := json.Marshal(r)
		if err != nil {
			panic(err)
		}
		tmp := status + ".res.tmp"
		if err := os.WriteFile(tmp, b, 0600); err != nil {
			panic(err)
		}
		if err := os.Rename(tmp, fmt.Sprintf("%s.res.%d", status, start)); err != nil {
			panic(err)
		}
	}
	lastFlush := time.Now()
	var deadline time.Time
	if d, err := strconv.ParseInt(os.Getenv("VERIF_DEADLINE"), 10, 64); err == nil {
		deadline = time.Unix(d, 0)
	}
	for i := k; i < total; i += m {
		if i < start {
			continue
		}
		if !deadline.IsZero() && i >= len(fixed) && time.Now().After(deadline) {
			s.Counters["workers_stopped_by_time_budget"]++
			break
		}
		fmt.Fprintf(io.NewOffsetWriter(st, 0), "%12d\n", i)
		runCase(p, tier, seed, i, s, fixed, false)
		if len(s.Viol) > 40 {
			break
		}
		if time.Since(lastFlush) > 2*time.Second {
			s.mu.Lock()
			flush()
			s.mu.Unlock()
			lastFlush = time.Now()
		}
	}
	s.mu.Lock()
	flush()
	s.mu.Unlock()
	fmt.Fprintf(io.NewOffsetWriter(st, 0), "%12d\n", -1)
}

// budget bounds the time of the random cases of a run (VERIF_BUDGET, seconds).
func budget(tier string) time.Duration {
	if n, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil && n > 0 {
		return time.Duration(n) * time.Second
	}
	if tier == "thorough" {
		return 780 * time.Second
	}
	return 480 * time.Second
}

func parent(p *Prop, tier string, seed int64, n, nw int, out, replayDir, knownFile string) int {
	t0 := time.Now()
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	dir, err := os.MkdirTemp("", "arwenmon")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	w := p.Workers
	if w == 0 {
		w = runtime.NumCPU()
		if w > 8 {
			w = 8
		}
	}
	if nw > 0 {
		w = nw
	}
	timeout := p.Timeout
	if timeout == 0 {
		timeout = 120 * time.Second
	}
	agg := newSink()
	var inconclusive []string
	var mu sync.Mutex
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			start := 0
			for attempt := 0; attempt < 6; attempt++ {
				status := filepath.Join(dir, fmt.Sprintf("w%d", k))
				os.WriteFile(status, []byte(fmt.Sprintf("%12d\n", -2)), 0600)
				cmd := exec.Command(exe, "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-worker", fmt.Sprintf("%d/%d", k, w), "-start", fmt.Sprint(start), "-status", status, "-cases", fmt.Sprint(n))
				logPath := filepath.Join(dir, fmt.Sprintf("w%d.%d.log", k, attempt))
				lf, _ := os.Create(logPath)
				cmd.Stdout, cmd.Stderr = lf, lf
				cmd.Env = append(os.Environ(), "GOTRACEBACK=all", fmt.Sprintf("VERIF_DEADLINE=%d", t0.Add(budget(tier)).Unix()))
				hung := false
				err := cmd.Start()
				if err == nil {
					done := make(chan error, 1)
					go func() { done <- cmd.Wait() }()
					last, lastAt := -3, time.Now()
				loop:
					for {
						select {
						case err = <-done:
							break loop
						case <-time.After(500 * time.Millisecond):
							cur := readStatus(status)
							if cur != last {
								last, lastAt = cur, time.Now()
							} else if time.Since(lastAt) > timeout {
								hung = true
								cmd.Process.Kill()
								err = <-done
								break loop
							}
						}
					}
				}
				lf.Close()
				mu.Lock()
				if b, e := os.ReadFile(fmt.Sprintf("%s.res.%d", status, start)); e == nil {
					var r workerResult
					if json.Unmarshal(b, &r) == nil {
						for c, v := range r.Counters {
							agg.Counters[c] += v
						}
						for _, d := range r.Distinct {
							agg.Distinct[d] = struct{}{}
						}
						if len(agg.Samples) < 12 {
							agg.Samples = append(agg.Samples, r.Samples...)
						}
						agg.Viol = append(agg.Viol, r.Viol...)
						agg.Cases += r.Cases
					}
				}
				mu.Unlock()
				if err == nil && !hung {
					return
				}
				cur := readStatus(status)
				tail := tailOf(logPath)
				mu.Lock()
				if cur == -2 {
					inconclusive = append(inconclusive, fmt.Sprintf("worker %d did not start: %v\n%s", k, err, tail))
					mu.Unlock()
					return
				}
				sig := crashSig(tail)
				if hung {
					sig = "hang: case did not end"
				}
				if strings.Contains(tail, "WARNING: DATA RACE") {
					sig = "race: " + raceSite(tail)
				}
				if p.CrashInconclusive {
					inconclusive = append(inconclusive, fmt.Sprintf("worker %d died in case %d: %s\n%s", k, cur, sig, tail))
				} else {
					agg.Viol = append(agg.Viol, violation{Sig: sig, Detail: tail, Index: cur, Name: "worker process"})
				}
				mu.Unlock()
				start = cur + 1
			}
		}(k)
	}
	wg.Wait()
	if p.Post != nil {
		p.Post(agg.Counters, func(sig, detail string) {
			agg.Viol = append(agg.Viol, violation{Sig: sig, Detail: detail, Index: -1})
		})
	}
	// known findings
	kf := map[string]known{}
	if knownFile != "" {
		if f, err := os.Open(knownFile); err == nil {
			sc := bufio.NewScanner(f)
			sc.Buffer(make([]byte, 1<<20), 1<<20)
			for sc.Scan() {
				var k known
				if json.Unmarshal(sc.Bytes(), &k) == nil && k.Property == p.ID && k.Signature != "" && k.Status != "fixed" {
					kf[k.Signature] = k
				}
			}
			f.Close()
		}
	}
	bySig := map[string][]violation{}
	for _, v := range agg.Viol {
		bySig[v.Sig] = append(bySig[v.Sig], v)
	}
	var sigs []string
	for s := range bySig {
		sigs = append(sigs, s)
	}
	sort.Strings(sigs)
	nviol := 0
	for _, k := range sortedKnown(kf) {
		if _, seen := bySig[k.Signature]; seen {
			fmt.Printf("KNOWN-FINDING: property=%s %s (observed: %s)\n", p.ID, k.Description, k.Signature)
		} else {
			fmt.Printf("KNOWN-FINDING: property=%s %s (not triggered in this run)\n", p.ID, k.Description)
		}
	}
	for _, s := range sigs {
		if _, ok := kf[s]; ok {
			continue
		}
		nviol++
		v := bySig[s][0]
		path := ""
		if replayDir != "" {
			os.MkdirAll(replayDir, 0755)
			path = filepath.Join(replayDir, fmt.Sprintf("%s-%d.json", p.ID, nviol))
			b, _ := json.MarshalIndent(map[string]interface{}{"property": p.ID, "tier": tier, "seed": seed, "case": v.Index, "name": v.Name, "signature": v.Sig, "detail": v.Detail, "trace": v.Trace,
				"replay": fmt.Sprintf("VERIF_SEED=%d ./check.sh %s %s -case %d", seed, p.ID, tier, v.Index)}, "", " ")
			os.WriteFile(path, b, 0644)
		}
		if nviol <= 10 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			d := v.Detail
			if len(d) > 3000 {
				d = d[:3000] + "..."
			}
			fmt.Print(printable(fmt.Sprintf("  %s (case %d %s, %d observed)\n  %s\n", s, v.Index, v.Name, len(bySig[s]), strings.ReplaceAll(d, "\n", "\n  "))))
		}
	}
	var missing []string
	for k, v := range p.Need {
		if agg.Counters[k] < v {
			missing = append(missing, fmt.Sprintf("%s=%d (need %d)", k, agg.Counters[k], v))
		}
	}
	sort.Strings(missing)
	var samples []interface{}
	for _, s := range agg.Samples {
		samples = append(samples, s)
	}
	if samples == nil {
		samples = []interface{}{"none"}
	}
	level := p.Level
	if level == "" {
		level = "exploration"
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": level,
		"coverage": map[string]interface{}{"evaluations": agg.Cases, "distinct_nontrivial": len(agg.Distinct), "rule": p.Rule, "samples": samples, "observed": agg.Counters,
			"workers": w, "inconclusive": len(inconclusive) + len(missing)},
		"assumptions": p.Assumptions, "wall_s": time.Since(t0).Seconds(), "violations": nviol,
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	if out != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(out), 0755)
		if err := os.WriteFile(out, append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s %s: %d cases, %d distinct observations, %d violations, %.1f s\n", p.ID, tier, agg.Cases, len(agg.Distinct), nviol, time.Since(t0).Seconds())
	var cn []string
	for k := range agg.Counters {
		cn = append(cn, fmt.Sprintf("%s=%d", k, agg.Counters[k]))
	}
	sort.Strings(cn)
	fmt.Println("  observed: " + strings.Join(cn, " "))
	if nviol > 0 {
		return 1
	}
	for _, s := range inconclusive {
		fmt.Fprintln(os.Stderr, "INCONCLUSIVE", s)
	}
	if len(missing) > 0 {
		fmt.Fprintln(os.Stderr, "INCONCLUSIVE observed too little:", strings.Join(missing, ", "))
	}
	if len(inconclusive)+len(missing) > 0 {
		return 2
	}
	return 0
}

func sortedKnown(m map[string]known) []known {
	var r []known
	for _, k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Signature < r[j].Signature })
	return r
}

func readStatus(p string) int {
	b, err := os.ReadFile(p)
	if err != nil {
		return -2
	}
	v := -2
	fmt.Sscanf(string(b), "%d", &v)
	return v
}

func tailOf(p string) string {
	b, _ := os.ReadFile(p)
	s := string(b)
	for _, mark := range []string{"WARNING: DATA RACE", "panic: ", "fatal error: ", "unexpected fault address", "MINIWASMER:", "SIGSEGV"} {
		if k := strings.Index(s, mark); k >= 0 {
			s = s[k:]
			break
		}
	}
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

func crashSig(tail string) string {
	return "crash: " + firstLine(tail) + " in " + panicSite(tail)
}

func raceSite(tail string) string {
	var fs []string
	seen := map[string]bool{}
	for _, l := range strings.Split(tail, "\n") {
		if k := strings.Index(l, "arwen-wasm-vm/v1_3/"); k >= 0 && strings.HasSuffix(strings.TrimSpace(l), ")") {
			f := l[k+len("arwen-wasm-vm/v1_3/"):]
			if j := strings.LastIndexByte(f, '('); j > 0 {
				f = f[:j]
			}
			if !seen[f] && len(fs) < 2 {
				seen[f] = true
				fs = append(fs, f)
			}
		}
	}
	return strings.Join(fs, " / ")
}

// printable replaces what is no text.
func printable(s string) string {
	return strings.Map(func(r rune) rune {
		if r == utf8.RuneError || (r < ' ' && r != '\n' && r != '\t') || r == 127 {
			return '?'
		}
		return r
	}, s)
}
