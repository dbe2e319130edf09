// Package core runs monitors: deterministic case lists, worker processes that
// survive crashes of the code under test, verdicts and evidence.
package core

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// A Prop is one monitor.
type Prop struct {
	ID    string
	Level string // exploration unless set
	Rule  string
	// Number of cases per tier.
	Quick, Thorough int
	// Run executes and judges one case.
	Run func(c *Case)
	// Minimum values of observation counters; below them the run is
	// inconclusive.
	Need map[string]int
	// Known findings: key -> probe. The probe returns a description and
	// true if the finding still shows.
	Known map[string]func() (string, bool)
	// Address space limit per worker in MB (0: 6000, <0: none).
	MemMB int
	// CPU seconds allowed per case (0: 60).
	CPU int
	// Worker processes (0: 8).
	Workers     int
	Assumptions []string
}

// A Case is one execution of a monitor.
type Case struct {
	*rand.Rand
	Idx  int
	Tier string
	Seed int64
	w    *worker
	ctx  string
	mu   sync.Mutex
}

type violation struct {
	Idx   int
	Kind  string
	Msg   string
	Input string
}

type result struct {
	Evaluations int64
	Observed    map[string]int64
	Distinct    []uint64
	Samples     []string
	Violations  []violation
	HarnessErr  string
	Done        bool
}

type worker struct {
	prop     *Prop
	mu       sync.Mutex
	res      result
	distinct map[uint64]struct{}
	progress *os.File
	caseNo   int64
	startCPU int64
}

// Thorough reports whether the thorough tier was requested.
func (c *Case) Thorough() bool { return c.Tier == "thorough" }

// Ctx records what the case is working on, for crash reports.
func (c *Case) Ctx(format string, args ...interface{}) {
	c.mu.Lock()
	c.ctx = fmt.Sprintf(format, args...)
	c.mu.Unlock()
}

// Violate records a violation of the property.
func (c *Case) Violate(input string, format string, args ...interface{}) {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	if len(c.w.res.Violations) < 10 {
		c.w.res.Violations = append(c.w.res.Violations, violation{c.Idx, "violation", fmt.Sprintf(format, args...), input})
	}
}

// Violated reports whether the current worker has recorded a violation.
func (c *Case) Violated() bool {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	return len(c.w.res.Violations) > 0
}

// Fatal aborts the run: the harness is broken, no verdict.
func (c *Case) Fatal(format string, args ...interface{}) {
	panic(harnessError(fmt.Sprintf(format, args...)))
}

type harnessError string

// Observe counts an observation.
func (c *Case) Observe(key string, n int) {
	c.w.mu.Lock()
	c.w.res.Observed[key] += int64(n)
	c.w.mu.Unlock()
}

// Eval counts n judged executions.
func (c *Case) Eval(n int) {
	c.w.mu.Lock()
	c.w.res.Evaluations += int64(n)
	c.w.mu.Unlock()
}

// Distinct records the signature of a non-trivial case.
func (c *Case) Distinct(sig string) {
	h := fnv.New64a()
	h.Write([]byte(sig))
	c.w.mu.Lock()
	if len(c.w.distinct) < 2000000 {
		c.w.distinct[h.Sum64()] = struct{}{}
	}
	c.w.mu.Unlock()
}

// Sample keeps a few cases, written out, for the evidence.
func (c *Case) Sample(format string, args ...interface{}) {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	if len(c.w.res.Samples) < 2 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		c.w.res.Samples = append(c.w.res.Samples, s)
	}
}

// Pct is true with probability p percent.
func (c *Case) Pct(p int) bool { return c.Intn(100) < p }

// Pick picks one of the strings.
func (c *Case) Pick(s ...string) string { return s[c.Intn(len(s))] }

func caseSeed(seed int64, id string, idx int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, idx)
	return int64(h.Sum64() >> 1)
}

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Sec + ru.Stime.Sec
}

const exitCPU = 97

func (w *worker) runCase(idx int, seed int64, tier string) {
	c := &Case{
		Rand: rand.New(rand.NewSource(caseSeed(seed, w.prop.ID, idx))),
		Idx:  idx, Tier: tier, Seed: seed, w: w,
	}
	if w.progress != nil {
		w.progress.WriteAt([]byte(fmt.Sprintf("%-20d", idx)), 0)
	}
	atomic.StoreInt64(&w.startCPU, cpuNow())
	atomic.StoreInt64(&w.caseNo, int64(idx)+1)
	defer atomic.StoreInt64(&w.caseNo, 0)
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if e, ok := r.(harnessError); ok {
			w.res.HarnessErr = fmt.Sprintf("case %d: %s", idx, string(e))
			return
		}
		stack := string(debug.Stack())
		c.mu.Lock()
		ctx := c.ctx
		c.mu.Unlock()
		if PanicInRepo(stack) {
			c.Violate(ctx, "panic: %v\n%s", r, stack)
		} else {
			w.res.HarnessErr = fmt.Sprintf("case %d: harness panic: %v\n%s\n%s", idx, r, stack, ctx)
		}
	}()
	w.prop.Run(c)
}

// PanicInRepo decides whether a panic was raised in (or in the standard
// library on behalf of) the code under test: the first frame above the panic
// that belongs to either the repository or the harness.
func PanicInRepo(stack string) bool {
	if i := strings.LastIndex(stack, "\npanic("); i >= 0 {
		stack = stack[i:]
	}
	for _, line := range strings.Split(stack, "\n") {
		if strings.HasPrefix(line, "\t") {
			continue
		}
		if strings.HasPrefix(line, "aqwari.net/xml/verif") || strings.HasPrefix(line, "main.") {
			return false
		}
		if strings.HasPrefix(line, "aqwari.net/xml/") {
			return true
		}
	}
	return false
}

// Call runs fn, and returns a description of the panic if fn panics in the
// code under test.
func Call(fn func()) (panicked string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(harnessError); ok {
				panic(r)
			}
			stack := string(debug.Stack())
			if !PanicInRepo(stack) {
				panic(r)
			}
			panicked = fmt.Sprintf("panic: %v\n%s", r, stack)
		}
	}()
	fn()
	return ""
}

func (w *worker) save(path string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.res.Distinct = w.res.Distinct[:0]
	for h := range w.distinct {
		w.res.Distinct = append(w.res.Distinct, h)
	}
	data, err := json.Marshal(&w.res)
	if err != nil {
		panic(err)
	}
	if err := ioutil.WriteFile(path, data, 0644); err != nil {
		panic(err)
	}
}

var (
	fProp   = flag.String("prop", "", "property to check")
	fVerif  = flag.String("verif", "/verif", "root of the verification files")
	fWorker = flag.String("worker", "", "internal: k/n")
	fFrom   = flag.Int("from", 0, "internal: first case")
	fOut    = flag.String("out", "", "internal: result file")
	fOnly   = flag.Int("only", -1, "run this case only, in this process")
	fCases  = flag.Int("cases", 0, "override the number of cases")
	fProbe  = flag.String("probe", "", "internal: probe a known finding")
)

// Main is the entry point of monitor programs.
func Main(props []*Prop) {
	flag.Parse()
	var prop *Prop
	for _, p := range props {
		if p.ID == *fProp {
			prop = p
		}
	}
	if prop == nil {
		fmt.Fprintf(os.Stderr, "no monitor for property %q\n", *fProp)
		os.Exit(3)
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			h := fnv.New64a()
			h.Write([]byte(s))
			n = int64(h.Sum64() >> 1)
		}
		seed = n
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	cases := prop.Quick
	if tier == "thorough" {
		cases = prop.Thorough
	}
	if *fCases > 0 {
		cases = *fCases
	}
	switch {
	case *fProbe != "":
		limit(prop)
		d, shows := prop.Known[*fProbe]()
		if shows {
			fmt.Println(d)
			os.Exit(10)
		}
		os.Exit(11)
	case *fWorker != "" || *fOnly >= 0:
		runWorker(prop, seed, tier, cases)
	default:
		os.Exit(supervise(prop, seed, tier, cases))
	}
}

func limit(prop *Prop) {
	debug.SetTraceback("all")
	mb := prop.MemMB
	if mb == 0 {
		mb = 6000
	}
	if mb > 0 {
		lim := uint64(mb) << 20
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	}
	debug.SetMaxStack(512 << 20)
}

func runWorker(prop *Prop, seed int64, tier string, cases int) {
	w := &worker{prop: prop, distinct: make(map[uint64]struct{})}
	w.res.Observed = make(map[string]int64)
	limit(prop)
	max := int64(prop.CPU)
	if max == 0 {
		max = 60
	}
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			if atomic.LoadInt64(&w.caseNo) == 0 {
				continue
			}
			if cpuNow()-atomic.LoadInt64(&w.startCPU) > max {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "case %d used more than %d s of CPU\n%s\n", atomic.LoadInt64(&w.caseNo)-1, max, buf[:n])
				os.Exit(exitCPU)
			}
		}
	}()
	if *fOnly >= 0 {
		w.runCase(*fOnly, seed, tier)
		if *fOut != "" {
			w.res.Done = true
			w.save(*fOut)
			os.Exit(0)
		}
		for _, v := range w.res.Violations {
			fmt.Printf("case %d: %s\ninput:\n%s\n", v.Idx, v.Msg, v.Input)
		}
		fmt.Println(w.res.HarnessErr)
		fmt.Printf("observed: %v\n", w.res.Observed)
		if len(w.res.Violations) > 0 {
			os.Exit(1)
		}
		if w.res.HarnessErr != "" {
			os.Exit(3)
		}
		os.Exit(0)
	}
	var k, n int
	fmt.Sscanf(*fWorker, "%d/%d", &k, &n)
	f, err := os.Create(*fOut + ".progress")
	if err != nil {
		panic(err)
	}
	w.progress = f
	last := time.Now()
	for i := k; i < cases; i += n {
		if i < *fFrom {
			continue
		}
		w.runCase(i, seed, tier)
		if w.res.HarnessErr != "" || len(w.res.Violations) >= 3 {
			break
		}
		if time.Since(last) > 5*time.Second {
			w.save(*fOut) // so that a crash later does not lose it
			last = time.Now()
		}
	}
	w.res.Done = true
	w.save(*fOut)
	os.Exit(0)
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func supervise(prop *Prop, seed int64, tier string, cases int) int {
	start := time.Now()
	n := prop.Workers
	if n == 0 {
		n = 8
	}
	if n > cases {
		n = cases
	}
	dir, err := ioutil.TempDir("", "mon-"+prop.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(dir)
	self, _ := os.Executable()
	var (
		mu     sync.Mutex
		total  = result{Observed: map[string]int64{}}
		dist   = map[uint64]struct{}{}
		herr   string
		wg     sync.WaitGroup
		crashN int
	)
	merge := func(r *result) {
		total.Evaluations += r.Evaluations
		for k, v := range r.Observed {
			total.Observed[k] += v
		}
		for _, h := range r.Distinct {
			dist[h] = struct{}{}
		}
		if len(total.Samples) < 4 {
			total.Samples = append(total.Samples, r.Samples...)
		}
		total.Violations = append(total.Violations, r.Violations...)
		if r.HarnessErr != "" && herr == "" {
			herr = r.HarnessErr
		}
	}
	run := func(args ...string) (int, string) {
		cmd := exec.Command(self, args...)
		cmd.Env = append(os.Environ(), "GOTRACEBACK=all")
		var errb strings.Builder
		cmd.Stderr = &errb
		cmd.Stdout = os.Stderr
		err := cmd.Run()
		if err == nil {
			return 0, errb.String()
		}
		if ee, ok := err.(*exec.ExitError); ok {
			return ee.ExitCode(), errb.String()
		}
		return -2, err.Error()
	}
	load := func(path string) *result {
		data, err := ioutil.ReadFile(path)
		if err != nil {
			return nil
		}
		var r result
		if json.Unmarshal(data, &r) != nil {
			return nil
		}
		return &r
	}
	common := []string{"-prop", prop.ID, "-verif", *fVerif, "-cases", strconv.Itoa(cases)}
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			from := 0
			for try := 0; ; try++ {
				out := filepath.Join(dir, fmt.Sprintf("w%d-%d", k, try))
				args := append([]string{"-worker", fmt.Sprintf("%d/%d", k, n), "-from", strconv.Itoa(from), "-out", out}, common...)
				code, stderr := run(args...)
				r := load(out)
				mu.Lock()
				if r != nil {
					merge(r)
				}
				mu.Unlock()
				if code == 66 || strings.Contains(stderr, "WARNING: DATA RACE") {
					mu.Lock()
					total.Violations = append(total.Violations, violation{-1, "race", "data race reported by the race detector", tail(stderr, 12000)})
					mu.Unlock()
					return
				}
				if code == 0 && r != nil && r.Done {
					return
				}
				idx := -1
				if p, err := ioutil.ReadFile(out + ".progress"); err == nil {
					if v, err := strconv.Atoi(strings.TrimSpace(string(p))); err == nil {
						idx = v
					}
				}
				if idx < 0 {
					mu.Lock()
					herr = fmt.Sprintf("worker %d ended with %d before its first case:\n%s", k, code, tail(stderr, 4000))
					mu.Unlock()
					return
				}
				// Confirm on that case alone.
				code2, stderr2 := run(append([]string{"-only", strconv.Itoa(idx), "-out", out + ".solo"}, common...)...)
				mu.Lock()
				r2 := load(out + ".solo")
				if code2 != 0 || r2 == nil {
					kind := "crash"
					if code2 == exitCPU {
						kind = "does not terminate"
					}
					total.Violations = append(total.Violations, violation{idx, kind,
						fmt.Sprintf("%s (twice; exit %d)", kind, code2), tail(stderr2, 12000)})
				} else {
					merge(r2)
				}
				crashN++
				stop := crashN > 12
				nviol := len(total.Violations)
				mu.Unlock()
				if stop || nviol >= 3 {
					return
				}
				from = idx + 1
			}
		}(k)
	}
	wg.Wait()

	// Known findings.
	keys := make([]string, 0)
	for k := range knownKeys(prop.ID) {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	known := []string{}
	for _, k := range keys {
		if prop.Known[k] == nil {
			fmt.Fprintf(os.Stderr, "known finding %s has no probe\n", k)
			return 3
		}
		cmd := exec.Command(self, append([]string{"-probe", k}, common...)...)
		outp, err := cmd.Output()
		code := 0
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
		if code == 10 {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop.ID, k, strings.TrimSpace(string(outp)))
			known = append(known, k)
		}
	}

	if len(total.Violations) > 1 {
		sort.SliceStable(total.Violations, func(i, j int) bool { return total.Violations[i].Idx < total.Violations[j].Idx })
	}
	rep := filepath.Join(*fVerif, "evidence", "replay")
	code := 0
	if len(total.Violations) > 0 {
		os.MkdirAll(rep, 0755)
		for i, v := range total.Violations {
			if i >= 3 {
				break
			}
			path := filepath.Join(rep, fmt.Sprintf("%s-%d.txt", prop.ID, v.Idx))
			body := fmt.Sprintf("property %s, seed %d, tier %s, case %d (of %d)\nreplay: VERIF_SEED=%d VERIF_TIER=%s bash run.sh %s -only %d\n\n%s\n\ninput:\n%s\n",
				prop.ID, seed, tier, v.Idx, cases, seed, tier, prop.ID, v.Idx, v.Msg, v.Input)
			ioutil.WriteFile(path, []byte(body), 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop.ID, path)
			fmt.Println(strings.ToValidUTF8(tail(v.Msg, 1500), "?"))
		}
		code = 1
	} else if herr != "" {
		fmt.Fprintf(os.Stderr, "HARNESS ERROR: %s\n", herr)
		code = 3
	} else {
		for k, v := range prop.Need {
			if total.Observed[k] < int64(v) && *fCases == 0 {
				fmt.Fprintf(os.Stderr, "INCONCLUSIVE: observed %s=%d, need %d\n", k, total.Observed[k], v)
				code = 3
			}
		}
		if total.Evaluations == 0 {
			fmt.Fprintf(os.Stderr, "INCONCLUSIVE: nothing evaluated\n")
			code = 3
		}
	}
	level := prop.Level
	if level == "" {
		level = "exploration"
	}
	cov := map[string]interface{}{
		"evaluations":         total.Evaluations,
		"distinct_nontrivial": len(dist),
		"rule":                prop.Rule,
		"samples":             total.Samples,
		"cases":               cases,
		"observed":            total.Observed,
		"known_findings_seen": known,
	}
	if level == "other" {
		cov["explanation"] = prop.Rule
	}
	ev := map[string]interface{}{
		"property": prop.ID, "tier": tier, "seed": seed, "level": level,
		"coverage": cov, "wall_s": time.Since(start).Seconds(),
		"violations":  len(total.Violations),
		"assumptions": append([]string{"the monitor's own model and the Go standard library are right"}, prop.Assumptions...),
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0755)
	if err := ioutil.WriteFile(filepath.Join(*fVerif, "evidence", prop.ID+".json"), append(data, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	fmt.Printf("%s: exit %d, %d cases, %d evaluations, %d distinct, %d violations, %.1f s\n", prop.ID, code, cases, total.Evaluations, len(dist), len(total.Violations), time.Since(start).Seconds())
	return code
}

// knownKeys reads known_findings.txt: lines "known: property=ID key=KEY text".
func knownKeys(id string) map[string]bool {
	keys := make(map[string]bool)
	data, err := ioutil.ReadFile(filepath.Join(*fVerif, "known_findings.txt"))
	if err != nil {
		return keys
	}
	for _, line := range strings.Split(string(data), "\n") {
		if !strings.HasPrefix(line, "known: property="+id+" ") {
			continue
		}
		for _, f := range strings.Fields(line) {
			if strings.HasPrefix(f, "key=") {
				keys[strings.TrimPrefix(f, "key=")] = true
			}
		}
	}
	return keys
}
