// Package main is the runtime-monitoring harness for gocfl. It is compiled by an
// overlay as github.com/je4/gocfl/v2/verifharness, i.e. against the current /repo tree.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Run is the state of one check run.
type Run struct {
	ID       string
	Tier     string
	Seed     int64
	Level    string
	Rule     string
	Assume   []string
	Scratch  string
	start    time.Time
	mu       sync.Mutex
	evals    int64
	distinct map[string]bool
	samples  []any
	counters map[string]int64
	viols    []Viol
	known    []Known
	hitKnown map[string]string
	out      *os.File
	stop     atomic.Bool
}

// Viol is one violation observed by a monitor.
type Viol struct {
	Key    string `json:"key"`    // stable identification of what failed
	Msg    string `json:"msg"`    // what was observed
	Replay any    `json:"replay"` // the case
}

// Known is one line of known-findings.jsonl
type Known struct {
	Property string `json:"property"`
	Key      string `json:"key"` // exact key of the finding
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N picks a size by tier
func (r *Run) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

func (r *Run) Rng(parts ...any) *rand.Rand {
	h := int64(1469598103934665603)
	s := fmt.Sprint(append([]any{r.Seed, "|"}, parts...)...)
	for _, c := range []byte(s) {
		h ^= int64(c)
		h *= 1099511628211
	}
	return rand.New(rand.NewSource(h))
}

// Count adds to a named event counter that ends up in the evidence.
func (r *Run) Count(name string, n int) {
	r.mu.Lock()
	r.counters[name] += int64(n)
	r.mu.Unlock()
}

// Case records that a case was evaluated. class identifies it (distinctness), nontrivial whether it counts.
func (r *Run) Case(class string, nontrivial bool) {
	r.mu.Lock()
	r.evals++
	if nontrivial {
		r.distinct[class] = true
	}
	r.mu.Unlock()
}

func (r *Run) Sample(v any) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, v)
	}
	r.mu.Unlock()
}

// Violate records a violation. key must identify the failing input/site.
func (r *Run) Violate(key, msg string, replay any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, k := range r.known {
		if k.Property == r.ID && k.Status == "known" && k.Key == key {
			r.hitKnown[k.Key] = k.What
			return
		}
	}
	for _, v := range r.viols {
		if v.Key == key {
			r.counters["violations_repeated"]++
			return
		}
	}
	if len(r.viols) < 40 {
		r.viols = append(r.viols, Viol{key, msg, replay})
	}
	if len(r.viols) >= 25 {
		r.stop.Store(true)
	}
}

func (r *Run) Stopped() bool { return r.stop.Load() }

func (r *Run) loadKnown() {
	f, err := os.Open(os.Getenv("VERIF_KNOWN"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "{") {
			continue
		}
		var k Known
		if json.Unmarshal([]byte(line), &k) == nil {
			r.known = append(r.known, k)
		}
	}
}

// Guard runs fn, turning a panic of the code under test into an error text.
func Guard(fn func() error) (err error, panicked string) {
	defer func() {
		if p := recover(); p != nil {
			panicked = fmt.Sprintf("panic: %v\n%s", p, shortStack(debug.Stack()))
		}
	}()
	err = fn()
	return
}

func shortStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "je4/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// panicSite extracts "func" of the topmost gocfl frame for a stable key.
func panicSite(p string) string {
	for _, l := range strings.Split(p, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "github.com/je4/gocfl/v2/") && !strings.Contains(l, "verifharness") {
			l = strings.TrimPrefix(l, "github.com/je4/gocfl/v2/")
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	return "unknown"
}

// Parallel runs n cases on the available cores.
func (r *Run) Parallel(n int, fn func(i int)) {
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || r.Stopped() {
					return
				}
				r.watched(fmt.Sprintf("case %d", i), func() { fn(i) })
			}
		}()
	}
	wg.Wait()
}

var watchLimit = 180 * time.Second

// watched runs fn under a generous wall-clock watchdog. Its firing means that an operation that
// takes milliseconds did not end: reported as a violation (hang) and the run is ended.
func (r *Run) watched(name string, fn func()) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if p := recover(); p != nil {
				st := string(debug.Stack())
				r.Violate("panic:"+panicSite(st), fmt.Sprintf("%s: uncaught panic %v\n%s", name, p, shortStack([]byte(st))), name)
			}
		}()
		fn()
	}()
	select {
	case <-done:
	case <-time.After(watchLimit):
		buf := make([]byte, 1<<20)
		n := runtime.Stack(buf, true)
		r.Violate("hang", name+": operation does not terminate\n"+blockedStacks(string(buf[:n])), name)
		r.finish()
	}
}

func blockedStacks(s string) string {
	var out []string
	for _, g := range strings.Split(s, "\n\n") {
		if strings.Contains(g, "/repo/pkg") {
			out = append(out, g)
		}
		if len(out) > 4 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (r *Run) finish() {
	r.mu.Lock()
	defer r.mu.Unlock()
	nd := len(r.distinct)
	cov := map[string]any{
		"evaluations":         r.evals,
		"distinct_nontrivial": nd,
		"rule":                r.Rule,
		"samples":             r.samples,
	}
	if r.samples == nil {
		cov["samples"] = []any{}
	}
	keys := []string{}
	for k := range r.counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		cov["observed_"+k] = r.counters[k]
	}
	ev := map[string]any{
		"property":    r.ID,
		"tier":        r.Tier,
		"seed":        r.Seed,
		"level":       r.Level,
		"coverage":    cov,
		"assumptions": r.Assume,
		"wall_s":      time.Since(r.start).Seconds(),
		"violations":  len(r.viols),
	}
	if r.Assume == nil {
		ev["assumptions"] = []string{}
	}
	dir := os.Getenv("VERIF_EVIDENCE")
	if dir == "" {
		dir = "/verif/evidence"
	}
	os.MkdirAll(dir, 0755)
	data, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, r.ID+".json"), append(data, '\n'), 0644)
	kk := []string{}
	for k := range r.hitKnown {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		fmt.Fprintf(r.out, "KNOWN-FINDING: property=%s %s [%s]\n", r.ID, r.hitKnown[k], k)
	}
	code := 0
	if len(r.viols) > 0 {
		code = 1
		rdir := filepath.Join(dir, "replay")
		os.MkdirAll(rdir, 0755)
		for i, v := range r.viols {
			p := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", r.ID, i))
			d, err := json.MarshalIndent(map[string]any{"property": r.ID, "seed": r.Seed, "tier": r.Tier, "violation": v}, "", " ")
			if err != nil {
				d, _ = json.MarshalIndent(map[string]any{"property": r.ID, "seed": r.Seed, "tier": r.Tier, "key": v.Key, "msg": v.Msg, "replay": fmt.Sprintf("%+v", v.Replay)}, "", " ")
			}
			os.WriteFile(p, d, 0644)
			fmt.Fprintf(r.out, "VIOLATION property=%s replay=%s\n", r.ID, p)
			fmt.Fprintf(r.out, "  %s: %s\n", v.Key, clip(v.Msg, 1500))
			if i > 8 {
				break
			}
		}
	} else if r.evals == 0 || nd == 0 {
		fmt.Fprintf(r.out, "INCONCLUSIVE property=%s nothing observed\n", r.ID)
		code = 3
	}
	fmt.Fprintf(r.out, "%s: %d evaluations, %d distinct non-trivial, %d violations, %.1fs\n", r.ID, r.evals, nd, len(r.viols), time.Since(r.start).Seconds())
	r.out.Sync()
	if r.Scratch != "" {
		removeScratch(r.Scratch)
	}
	os.Exit(code)
}

func removeScratch(dir string) {
	if !strings.Contains(filepath.Base(dir), "gocflverif") {
		return
	}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.IsDir() {
			os.Chmod(p, 0755)
		}
		return nil
	})
	os.RemoveAll(dir)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

type checkFunc func(r *Run)

var checks = map[string]struct {
	level string
	rule  string
	fn    checkFunc
}{}

func register(id, level, rule string, fn checkFunc) {
	checks[id] = struct {
		level string
		rule  string
		fn    checkFunc
	}{level, rule, fn}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: harness <ID>")
		os.Exit(2)
	}
	id := os.Args[1]
	c, ok := checks[id]
	if !ok {
		fmt.Println("unknown check", id)
		os.Exit(2)
	}
	if os.Getenv("VERIF_CHILD") == "" {
		os.Exit(supervise(id, c.level, c.rule))
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	out := os.Stdout
	// the code under test prints to stdout/stderr; keep the verdict channel clean
	if os.Getenv("VERIF_DEBUG") == "" {
		null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		os.Stdout = null
	}
	scratch := os.Getenv("VERIF_SCRATCH")
	r := &Run{ID: id, Tier: tier, Seed: seed, Level: c.level, Rule: c.rule, start: time.Now(), Scratch: scratch,
		distinct: map[string]bool{}, counters: map[string]int64{}, hitKnown: map[string]string{}, out: out}
	r.loadKnown()
	// the local time zone is not UTC, offsets differ from run to run
	time.Local = time.FixedZone("", []int{20700, -12600, 50400, 3600, -39600}[int(uint64(seed)%5)])
	c.fn(r)
	r.finish()
}

// supervise runs the check in a child process, so that code under test that ends the process (an uncaught
// panic in one of its goroutines, a fatal error of the runtime, os.Exit) is observed and reported.
func supervise(id, level, rule string) int {
	base := "/dev/shm"
	if fi, serr := os.Stat(base); serr != nil || !fi.IsDir() {
		base = ""
	}
	scratch, err := os.MkdirTemp(base, "gocflverif")
	if err != nil {
		scratch, err = os.MkdirTemp("", "gocflverif")
	}
	if err != nil {
		fmt.Println("check error:", err)
		return 2
	}
	defer removeScratch(scratch)
	runtime.LockOSThread() // the child ends with this thread
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_CHILD=1", "VERIF_SCRATCH="+scratch)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var out, errb tailBuf
	cmd.Stdout = io.MultiWriter(os.Stdout, &out)
	cmd.Stderr = &errb
	start := time.Now()
	err = cmd.Run()
	if strings.Contains(out.String(), id+": ") && strings.Contains(out.String(), " evaluations, ") {
		return cmd.ProcessState.ExitCode()
	}
	dir := os.Getenv("VERIF_EVIDENCE")
	if dir == "" {
		dir = "/verif/evidence"
	}
	text := errb.String()
	if st, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && st.Signaled() && st.Signal() == syscall.SIGKILL {
		fmt.Printf("check error: the check of %s was killed (memory?)\n", id)
		return 2
	}
	if !strings.Contains(text, "gocfl/v2/pkg") && !strings.Contains(text, "gocfl/v2/gocfl") && (strings.Contains(text, "panic:") || strings.Contains(text, "fatal error:")) {
		fmt.Printf("check error: the check of %s failed: %v\n%s\n", id, err, clip(text, 4000))
		return 2
	}
	os.MkdirAll(filepath.Join(dir, "replay"), 0755)
	p := filepath.Join(dir, "replay", id+"-process.json")
	d, _ := json.MarshalIndent(map[string]any{"property": id, "seed": os.Getenv("VERIF_SEED"), "what": fmt.Sprintf("the process ended: %v", err), "stderr": text}, "", " ")
	os.WriteFile(p, d, 0644)
	ev, _ := json.MarshalIndent(map[string]any{"property": id, "tier": os.Getenv("VERIF_TIER"), "seed": 0, "level": level,
		"coverage": map[string]any{"evaluations": 1, "distinct_nontrivial": 1, "rule": rule, "samples": []any{}}, "assumptions": []string{}, "wall_s": time.Since(start).Seconds(), "violations": 1}, "", " ")
	os.WriteFile(filepath.Join(dir, id+".json"), append(ev, '\n'), 0644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
	fmt.Printf("  process-ended:%s: the process of the check ended (%v)\n%s\n", panicSite(text), err, clip(text, 3000))
	return 1
}

// tailBuf keeps the first and the last bytes written to it
type tailBuf struct {
	mu         sync.Mutex
	head, tail []byte
}

func (t *tailBuf) Write(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.head) < 1<<16 {
		t.head = append(t.head, b...)
		return len(b), nil
	}
	t.tail = append(t.tail, b...)
	if len(t.tail) > 1<<17 {
		t.tail = append([]byte{}, t.tail[len(t.tail)-(1<<16):]...)
	}
	return len(b), nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.head) + string(t.tail)
}
