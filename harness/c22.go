package main

// Concurrent use: no data races, and the same results as one after the other.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/je4/filesystem/v3/pkg/osfsrw"
	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
)

func init() {
	register("C22", "exploration", "under the Go race detector: (objects) histories of several objects executed one after the other and then all at once on one shared or several storage root instances, together with readers and listings; (readers) all reading operations of intact and damaged roots at once; (lookups) shared layout and path extensions asked by many goroutines; (streams) files streamed through groups of consumers of different pace; every result is compared with the sequential one; half of the runs without any locking of the harness, the others with recorded calls and injected delays; non-trivial when two goroutines were at work at the same time", c22)
}

func c22(r *Run) {
	if !raceEnabled {
		r.Violate("harness", "not built with the race detector", nil)
		return
	}
	seen := &schedules{m: map[uint64]bool{}}
	r.Parallel(r.N(110, 900), func(i int) { r.c22objects(i, seen) })
	r.Parallel(r.N(50, 400), func(i int) { r.c22readers(i, seen) })
	r.Parallel(r.N(150, 1200), func(i int) { r.c22lookups(i) })
	r.Parallel(r.N(60, 500), func(i int) { r.c22streams(i) })
	r.Count("distinct_interleavings_of_fs_calls", len(seen.m))
	r.raceReports()
}

// schedules collects the observed interleavings
type schedules struct {
	mu sync.Mutex
	m  map[uint64]bool
}

// observe turns the recorded calls into the sequence of workers
func (s *schedules) observe(r *Run, ev []Event, owner func(p string) int) {
	h := fnv.New64a()
	last, switches := -1, 0
	for _, e := range ev {
		o := owner(e.Path)
		if o < 0 {
			continue
		}
		if o != last {
			switches++
			fmt.Fprintf(h, "%d ", o)
		}
		last = o
	}
	s.mu.Lock()
	s.m[h.Sum64()] = true
	s.mu.Unlock()
	r.Count("switches_between_workers", switches)
	r.Count("fs_calls_observed", len(ev))
}

// jitter disturbs the schedule without synchronising anything
func jitter(rng *rand.Rand) {
	switch rng.Intn(8) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(rng.Intn(200)) * time.Microsecond)
	}
}

// sharedEnv opens the root: raw without any lock of the harness, or recorded
func sharedEnv(dir string, c *Cfg, observed bool, load bool) (*Env, error) {
	inner, err := osfsrw.NewFS(dir, nopLogger())
	if err != nil {
		return nil, err
	}
	rec := NewRec()
	var fsys fs.FS = inner
	if observed {
		rec.Keep = true
		rec.Delay = func(op string) {
			if time.Now().UnixNano()%7 == 0 {
				runtime.Gosched()
			}
		}
		fsys = NewXFS(inner, rec)
	}
	e, err := baseEnvFS(dir, fsys, c, rec)
	if err != nil {
		return nil, err
	}
	if load {
		return e, e.load()
	}
	return e, e.create()
}

// canonInv is an inventory without creation times and order of sets
func canonInv(b []byte) string {
	var x any
	if json.Unmarshal(b, &x) != nil {
		return string(b)
	}
	var canon func(x any, key string) any
	canon = func(x any, key string) any {
		switch t := x.(type) {
		case map[string]any:
			for k, v := range t {
				if k == "created" {
					t[k] = "T"
					continue
				}
				t[k] = canon(v, k)
			}
		case []any:
			sort.Slice(t, func(i, j int) bool { return fmt.Sprint(t[i]) < fmt.Sprint(t[j]) })
		}
		return x
	}
	b, _ = json.Marshal(canon(x, ""))
	return string(b)
}

// canonTree removes what is different between two runs of the same updates
func canonTree(t Tree) Tree {
	n := Tree{}
	for p, b := range t {
		base := filepath.Base(p)
		switch {
		case base == "inventory.json":
			n[p] = []byte(canonInv(b))
		case strings.HasPrefix(base, "inventory.json."):
			n[p] = []byte("sidecar")
		default:
			n[p] = b
		}
	}
	return n
}

type c22res struct {
	err  error
	pan  string
	what string
	msg  string // difference seen by the worker
	ops  int
	t0   time.Time
	t1   time.Time
}

func (r *Run) c22objects(i int, seen *schedules) {
	rng := r.Rng("objects", i)
	var c *Cfg
	rich := i%3 == 2
	for c == nil || c.MetaFile != "" {
		c = genCfg(rng)
		if rich {
			c = richCfg(rng, r.Scratch)
		}
	}
	w, err := newWorld(r, rng, c, fmt.Sprintf("c22o%d", i))
	defer w.done()
	if err != nil {
		r.Count("sequential_runs_that_fail", 1)
		return
	}
	w.log = nil
	opt := HistOpt{Odd: true, Ops: true, Mixed: true}
	rich = rich || c.HasFS || c.FSArea
	nobj := 3 + rng.Intn(4)
	type todo struct {
		upd  *Upd
		want map[string][]byte
	}
	plan := map[string][]todo{}
	var ids []string
	for k := 0; k < nobj; k++ {
		id := w.newID(k)
		n := 1 + rng.Intn(4)
		for j := 0; j < n; j++ {
			u := w.genUpd(id, opt)
			s := w.step(id, u)
			if s.Err != nil || s.Panic != "" || w.objs[id] == nil {
				// sequential failures belong to other checks
				r.Count("sequential_runs_that_fail", 1)
				return
			}
			plan[id] = append(plan[id], todo{u, s.Next})
		}
		ids = append(ids, id)
	}
	seqTree := readTree(w.dir)
	observed := i%2 == 1
	shared := rng.Intn(4) > 0
	dir := filepath.Join(w.tmp, "conc")
	os.MkdirAll(dir, 0755)
	e, err := sharedEnv(dir, c, observed, false)
	report := func(key, msg string) {
		r.Violate(key, fmt.Sprintf("%s\n    shared root instance: %v, recorded: %v, %s\n    objects: %s", msg, shared, observed, c.Label, strings.Join(w.log, "\n             ")), map[string]any{"config": c, "history": w.log})
	}
	if err != nil {
		report("init", err.Error())
		return
	}
	for _, id := range ids {
		for _, t := range plan[id] {
			cl, err := w.prepare(t.upd)
			defer cl()
			if err != nil {
				return
			}
		}
	}
	// the first object is there before, for the readers
	static := ids[0]
	if err, p := Guard(func() error {
		for _, t := range plan[static] {
			if err := e.update(static, t.upd); err != nil {
				return err
			}
		}
		return nil
	}); err != nil || p != "" {
		report("repeat", fmt.Sprintf("the same updates fail on a second root: %v %s", err, p))
		return
	}
	e.Rec.Events = nil
	area := ""
	if c.Areas != nil {
		area = "full"
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	var res []*c22res
	work := func(what string, fn func(x *c22res, e *Env, rng *rand.Rand) error) {
		x := &c22res{what: what}
		res = append(res, x)
		rng := r.Rng("worker", i, len(res))
		my := *e
		if !shared {
			o, err := sharedEnv(dir, c, false, true)
			if err != nil {
				x.err = err
				return
			}
			my = *o
			my.FS, my.Rec = e.FS, e.Rec
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			x.t0 = time.Now()
			x.err, x.pan = Guard(func() error { return fn(x, &my, rng) })
			x.t1 = time.Now()
		}()
	}
	nTmp := 0
	tmp := func() string { nTmp++; return filepath.Join(w.tmp, fmt.Sprintf("x%d", nTmp)) }
	compare := func(x *c22res, e *Env, id, ver string, want map[string][]byte, out string) error {
		defer os.RemoveAll(out)
		os.MkdirAll(out, 0755)
		dst, err := osfsrw.NewFS(out, nopLogger())
		if err != nil {
			return err
		}
		if err := e.SR.Extract(dst, "", id, ver, false, area); err != nil {
			return fmt.Errorf("extract %q %s: %w", id, ver, err)
		}
		got := map[string][]byte{}
		for p, b := range readTree(out) {
			if !strings.HasSuffix(p, "/") {
				got[p] = b
			}
		}
		if d := stateDiff(c.pure(want), c.pure(got)); len(d) > 0 && x.msg == "" {
			x.msg = fmt.Sprintf("version %s of %q is extracted differently: %s", ver, id, strings.Join(first(d, 4), "; "))
		}
		return nil
	}
	for _, id := range ids[1:] {
		outs := []string{}
		for range plan[id] {
			outs = append(outs, tmp())
		}
		work("updates of "+id, func(x *c22res, e *Env, rng *rand.Rand) error {
			for k, t := range plan[id] {
				jitter(rng)
				if err := e.update(id, t.upd); err != nil {
					return fmt.Errorf("update %d of %q: %w", k+1, id, err)
				}
				x.ops++
				if rng.Intn(2) == 0 {
					if err := compare(x, e, id, "latest", t.want, outs[k]); err != nil {
						return err
					}
				}
				if rng.Intn(3) == 0 {
					o, err := e.SR.LoadObjectByID(id)
					if err != nil {
						return fmt.Errorf("load %q: %w", id, err)
					}
					if _, err := o.GetMetadata(); err != nil {
						return fmt.Errorf("metadata of %q: %w", id, err)
					}
				}
				if rng.Intn(3) == 0 {
					if err := e.SR.CheckObjectByID(id); err != nil {
						return fmt.Errorf("check %q: %w", id, err)
					}
				}
			}
			return nil
		})
	}
	// readers of what is there, and of what changes (whose result is open)
	so := w.objs[static]
	var versions []string
	for _, v := range so.Versions {
		versions = append(versions, v.Name)
	}
	for k := 0; k < 2; k++ {
		outs := []string{tmp(), tmp(), tmp()}
		work("reader of "+static, func(x *c22res, e *Env, rng *rand.Rand) error {
			for j := 0; j < 3; j++ {
				v := rng.Intn(len(versions))
				if err := compare(x, e, static, versions[v], so.Versions[v].State, outs[j]); err != nil {
					return err
				}
				x.ops++
				if err := e.SR.CheckObjectByID(static); err != nil {
					return fmt.Errorf("check %q: %w", static, err)
				}
				if err := e.SR.Stat(io.Discard, "", static, nil); err != nil {
					return fmt.Errorf("stat %q: %w", static, err)
				}
				jitter(rng)
				if ok, err := e.SR.ObjectExists(static); err != nil || !ok {
					return fmt.Errorf("object %q not found: %v", static, err)
				}
			}
			return nil
		})
	}
	work("listing", func(x *c22res, e *Env, rng *rand.Rand) error {
		for j := 0; j < 4; j++ {
			jitter(rng)
			_, _ = e.SR.GetObjectFolders()
			_, _ = e.SR.GetFolders()
			_, _ = e.SR.ObjectExists(pick(rng, ids))
		}
		return nil
	})
	runtime.Gosched()
	close(start)
	wg.Wait()
	if observed {
		of := map[string]int{}
		for k, id := range ids {
			if o := w.objs[id]; o != nil {
				of[o.Path] = k
			}
		}
		seen.observe(r, e.Rec.Events, func(p string) int {
			for q, k := range of {
				if p == q || strings.HasPrefix(p, q+"/") {
					return k
				}
			}
			return -1
		})
	}
	over := 0
	for _, x := range res {
		for _, y := range res {
			if x != y && x.t0.Before(y.t1) && y.t0.Before(x.t1) {
				over++
			}
		}
		r.Count("concurrent_operations", x.ops)
	}
	r.Count("overlapping_pairs_of_workers", over/2)
	r.Case(fmt.Sprint("objects ", c.Label, nobj, shared, observed), over > 0)
	for _, x := range res {
		if x.pan != "" {
			report("panic:"+panicSite(x.pan), x.what+": "+x.pan)
			return
		}
		if x.err != nil {
			report("error:"+errSummary(x.err), fmt.Sprintf("%s fails although it succeeds alone: %v", x.what, x.err))
			return
		}
		if x.msg != "" {
			report("other-bytes", x.what+": "+x.msg)
			return
		}
	}
	// what is there is what the sequential run left
	got := readTree(dir)
	objs := map[string]string{}
	for _, id := range ids {
		o := w.objs[id]
		objs[o.Path] = id
		if !rich {
			if d := diffTrees(canonTree(seqTree.sub(o.Path)), canonTree(got.sub(o.Path))); len(d) > 0 {
				report("other-object", fmt.Sprintf("object %q differs from the one of the sequential run: %s", id, strings.Join(first(d, 4), "; ")))
				return
			}
			continue
		}
		inv, err := readInv(got[o.Path+"/inventory.json"])
		if err != nil {
			report("no-inventory", fmt.Sprintf("object %q: %v", id, err))
			return
		}
		for _, v := range o.Versions {
			want, have := map[string]string{}, map[string]string{}
			for l, b := range c.pure(v.State) {
				want[l] = digest(inv.Digest, b)
			}
			for l, d := range inv.logical(v.Name) {
				if !c.derived(l) && !(c.Folders != "" && filepath.Base(l) == c.Folders) {
					have[l] = d
				}
			}
			if !reflect.DeepEqual(want, have) {
				report("other-state", fmt.Sprintf("version %s of %q has another state than in the sequential run", v.Name, id))
				return
			}
		}
	}
	seqTop, gotTop := Tree{}, Tree{}
	inObj := func(p string) bool {
		for q := range objs {
			if strings.HasPrefix(p, q+"/") {
				return true
			}
		}
		return false
	}
	for p, b := range seqTree {
		if !inObj(p) {
			seqTop[p] = b
		}
	}
	for p, b := range got {
		if !inObj(p) {
			gotTop[p] = b
		}
	}
	if d := diffTrees(seqTop, gotTop); len(d) > 0 {
		report("other-root", "the storage root differs from the one of the sequential run: "+strings.Join(first(d, 4), "; "))
		return
	}
	if o := oracleRoot(got, objs); len(o) > 0 {
		report("nonconforming", "what was written does not conform to OCFL: "+strings.Join(first(o, 4), "; "))
		return
	}
	r.Count("objects_compared", len(ids))
}

// words is a report without its order
func words(s string) []string {
	x := strings.FieldsFunc(s, func(r rune) bool { return strings.ContainsRune(" \n\t,[]{}", r) })
	sort.Strings(x)
	return x
}

// reading is a reading operation with its result
type reading struct {
	name string
	run  func(e *Env, o ocfl.Object, out string) string
}

func outcome(v any, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	b, _ := json.Marshal(v)
	return string(b)
}

func (w *World) c22readings(id, objPath, ver string, man bool) []reading {
	area := ""
	if w.cfg.Areas != nil {
		area = "full"
	}
	extract := func(out string, fn func(dst fs.FS) error) string {
		os.MkdirAll(out, 0755)
		defer os.RemoveAll(out)
		dst, err := osfsrw.NewFS(out, nopLogger())
		if err != nil {
			return "harness: " + err.Error()
		}
		err = fn(dst)
		l := []string{fmt.Sprint(err)}
		if err != nil {
			// what is there after a failure depends on the order of the files
			return l[0]
		}
		t := readTree(out)
		for _, p := range sortedKeys(t) {
			b := t[p]
			if strings.HasPrefix(p, "manifest.") {
				x := strings.Split(string(b), "\n")
				sort.Strings(x)
				b = []byte(strings.Join(x, "\n"))
			}
			l = append(l, p+" "+digest("md5", b))
		}
		return strings.Join(l, "\n")
	}
	load := func(e *Env, o ocfl.Object) (ocfl.Object, error) {
		if o != nil {
			return o, nil
		}
		return e.SR.LoadObjectByID(id)
	}
	return []reading{
		{"folders", func(e *Env, o ocfl.Object, out string) string {
			a, err := e.SR.GetObjectFolders()
			sort.Strings(a)
			return outcome(a, err)
		}},
		{"files", func(e *Env, o ocfl.Object, out string) string { return outcome(e.SR.GetFiles()) }},
		{"exists", func(e *Env, o ocfl.Object, out string) string { return outcome(e.SR.ObjectExists(id)) }},
		{"check-object", func(e *Env, o ocfl.Object, out string) string { return outcome("", e.SR.CheckObjectByID(id)) }},
		{"check-folder", func(e *Env, o ocfl.Object, out string) string { return outcome("", e.SR.CheckObjectByFolder(objPath)) }},
		{"check", func(e *Env, o ocfl.Object, out string) string { return outcome("", e.SR.Check()) }},
		{"metadata", func(e *Env, o ocfl.Object, out string) string {
			o, err := load(e, o)
			if err != nil {
				return outcome(nil, err)
			}
			return outcome(o.GetMetadata())
		}},
		{"inventory", func(e *Env, o ocfl.Object, out string) string {
			o, err := load(e, o)
			if err != nil {
				return outcome(nil, err)
			}
			return outcome(o.GetInventory(), nil)
		}},
		{"object-stat", func(e *Env, o ocfl.Object, out string) string {
			o, err := load(e, o)
			if err != nil {
				return outcome(nil, err)
			}
			var b bytes.Buffer
			err = o.Stat(&b, []ocfl.StatInfo{ocfl.StatObjectVersions, ocfl.StatObjectVersionState, ocfl.StatObjectManifest})
			return outcome(words(b.String()), err)
		}},
		{"object-extract", func(e *Env, o ocfl.Object, out string) string {
			o, err := load(e, o)
			if err != nil {
				return outcome(nil, err)
			}
			return extract(out, func(dst fs.FS) error { return o.Extract(dst, ver, man, area) })
		}},
		{"extract", func(e *Env, o ocfl.Object, out string) string {
			return extract(out, func(dst fs.FS) error { return e.SR.Extract(dst, "", id, ver, man, area) })
		}},
		{"extract-path", func(e *Env, o ocfl.Object, out string) string {
			return extract(out, func(dst fs.FS) error { return e.SR.Extract(dst, objPath, "", "latest", man, area) })
		}},
		{"extractmeta", func(e *Env, o ocfl.Object, out string) string { return outcome(e.SR.ExtractMeta("", id)) }},
		{"stat", func(e *Env, o ocfl.Object, out string) string {
			var b bytes.Buffer
			err := e.SR.Stat(&b, "", id, nil)
			return outcome(words(b.String()), err)
		}},
	}
}

func (r *Run) c22readers(i int, seen *schedules) {
	rng := r.Rng("readers", i)
	var c *Cfg
	if i%2 == 0 {
		c = genCfg(rng)
	} else {
		d := filepath.Join(r.Scratch, fmt.Sprintf("c22m%d", i))
		os.MkdirAll(d, 0755)
		c = richCfg(rng, d)
	}
	w, err := newWorld(r, rng, c, fmt.Sprintf("c22r%d", i))
	defer w.done()
	if err != nil {
		r.Count("sequential_runs_that_fail", 1)
		return
	}
	nobj := 2 + rng.Intn(2)
	for k := 0; k < nobj; k++ {
		id := w.newID(k)
		for j := 0; j < 1+rng.Intn(3); j++ {
			s := w.step(id, w.genUpd(id, HistOpt{Odd: true, Ops: true, Mixed: true}))
			if s.Err != nil || s.Panic != "" || w.objs[id] == nil {
				r.Count("sequential_runs_that_fail", 1)
				return
			}
		}
	}
	damaged := rng.Intn(3) == 0
	if damaged {
		// a content file of every object is changed: the validator has something to report
		for _, o := range w.objs {
			t := readTree(filepath.Join(w.dir, o.Path))
			for _, p := range sortedKeys(t) {
				if strings.HasPrefix(p, "v1/") && strings.Count(p, "/") >= 2 && !strings.HasSuffix(p, "/") {
					os.WriteFile(filepath.Join(w.dir, o.Path, p), append(t[p], '!'), 0644)
					break
				}
			}
		}
	}
	observed := i%4 >= 2
	type job struct {
		id  string
		rd  reading
		key string
	}
	var jobs []job
	for _, id := range w.ids {
		o := w.objs[id]
		ver := pick(rng, []string{"latest", o.Versions[rng.Intn(len(o.Versions))].Name})
		for _, rd := range w.c22readings(id, o.Path, ver, rng.Intn(2) == 0) {
			jobs = append(jobs, job{id, rd, rd.name + " " + id + " " + ver})
		}
	}
	status := func(e *Env) map[string]int {
		m := map[string]int{}
		st, err := ocfl.GetValidationStatus(e.Ctx)
		if err == nil {
			for _, v := range st.Errors {
				m[v.Error()]++
			}
		}
		return m
	}
	// sequential
	se, err := sharedEnv(w.dir, c, observed, true)
	if err != nil {
		r.Count("sequential_runs_that_fail", 1)
		return
	}
	base := status(se)
	want := map[string]string{}
	for _, j := range jobs {
		if p := guard(func() { want[j.key] = j.rd.run(se, nil, w.tmpDir()) }); p != "" {
			r.Count("sequential_runs_that_fail", 1)
			return
		}
	}
	wantStatus := status(se)
	reps := 2 + rng.Intn(2)
	oneObject := rng.Intn(2) == 0
	e, err := sharedEnv(w.dir, c, observed, true)
	if err != nil {
		return
	}
	objs := map[string]ocfl.Object{}
	if oneObject {
		for _, id := range w.ids {
			if objs[id], err = e.SR.LoadObjectByID(id); err != nil {
				return
			}
		}
	}
	type got struct{ key, res string }
	workers := 3 + rng.Intn(4)
	results := make([][]got, workers)
	pans := make([]string, workers)
	start := make(chan struct{})
	var wg sync.WaitGroup
	// every job is done reps times, by whomever
	share := make([][]job, workers)
	for k := 0; k < reps; k++ {
		for n, j := range rng.Perm(len(jobs)) {
			share[(n+k)%workers] = append(share[(n+k)%workers], jobs[j])
		}
	}
	for g := 0; g < workers; g++ {
		rng := r.Rng("rw", i, g)
		my := *e
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			pans[g] = guard(func() {
				for n, j := range share[g] {
					jitter(rng)
					out := filepath.Join(w.tmp, fmt.Sprintf("g%d-%d", g, n))
					results[g] = append(results[g], got{j.key, j.rd.run(&my, objs[j.id], out)})
				}
			})
		}()
	}
	close(start)
	wg.Wait()
	report := func(key, msg string) {
		r.Violate(key, fmt.Sprintf("%s\n    recorded: %v, one object instance: %v, damaged: %v, %s\n    history: %s", msg, observed, oneObject, damaged, c.Label, strings.Join(w.log, "\n             ")), map[string]any{"config": c, "history": w.log})
	}
	if observed {
		paths := map[string]int{}
		for k, id := range w.ids {
			paths[w.objs[id].Path] = k
		}
		seen.observe(r, e.Rec.Events, func(p string) int {
			for q, k := range paths {
				if p == q || strings.HasPrefix(p, q+"/") {
					return k
				}
			}
			return len(paths)
		})
	}
	r.Case(fmt.Sprint("readers ", c.Label, workers, observed, oneObject, damaged), true)
	r.Count("concurrent_readings", reps*len(jobs))
	for _, p := range pans {
		if p != "" {
			report("panic:"+panicSite(p), "reading concurrently panics: "+p)
			return
		}
	}
	for g := range results {
		for _, x := range results[g] {
			if x.res != want[x.key] {
				name, _, _ := strings.Cut(x.key, " ")
				report("other-result:"+name, fmt.Sprintf("%s delivers %s\n    alone it delivers %s", x.key, clip(x.res, 900), clip(want[x.key], 900)))
				return
			}
		}
	}
	// every message of the validator is there, as often as it was given
	if oneObject {
		return
	}
	have := status(e)
	for m, n := range wantStatus {
		if x := base[m] + (n-base[m])*reps; have[m] != x {
			report("validation-messages", fmt.Sprintf("the validator reports %q %d times instead of %d", clip(m, 300), have[m], x))
			return
		}
	}
	for m := range have {
		if wantStatus[m] == 0 {
			report("validation-messages", fmt.Sprintf("the validator reports %q only when used concurrently", clip(m, 300)))
			return
		}
	}
	if damaged {
		r.Count("damaged_roots_validated_concurrently", 1)
	}
}

// c22lookups asks shared extensions
func (r *Run) c22lookups(i int) {
	rng := r.Rng("lookups", i)
	spec, label := genLayout(rng)
	specs := []ExtSpec{spec}
	if rng.Intn(2) == 0 {
		specs = append(specs, mgrSpecs(nil, nil)...)
	}
	alone, err := layoutManager(specs)
	if err != nil {
		return
	}
	shared, err := layoutManager(specs)
	if err != nil {
		return
	}
	oneShot := func(p string, err error) string {
		if err != nil {
			return "error " + err.Error()
		}
		return p
	}
	var ids []string
	seen := map[string]bool{}
	for k := 0; k < 40; k++ {
		id, _ := genID(rng)
		if !seen[id] {
			seen[id] = true
			ids = append(ids, id)
		}
	}
	// paths of files, with the extensions of an object
	clean := rng.Intn(2) == 0
	oc := &Cfg{Areas: map[string]string{"content": "data", "metadata": "meta"}}
	oc.Obj = []ExtSpec{csp(oc.Areas)}
	if clean {
		cc, _ := genClean(rng)
		ds := cc.spec()
		oc.Obj = append(oc.Obj, ds)
		oc.Obj = append(oc.Obj, mgrSpecs(map[string][]string{"ObjectContentPath": {ds.Name, "NNNN-content-subpath"}}, nil)...)
	}
	f, err := newFactory(oc)
	if err != nil {
		return
	}
	om := func() ocfl.ExtensionManager {
		m, err := f.LoadExtensions(NewMemFS(extFiles(oc.Obj)), nil)
		if err != nil {
			return nil
		}
		return m
	}
	aloneO, sharedO := om(), om()
	ask := func(m pathBuilder, o ocfl.ExtensionManager, id string) (res string) {
		if p := guard(func() {
			res = oneShot(m.BuildStorageRootPath(nil, id))
			if o != nil {
				res += "|" + oneShot(o.BuildObjectManifestPath(nil, strings.Trim(id, "/"), "content"))
				res += "|" + oneShot(o.BuildObjectStatePath(nil, strings.Trim(id, "/"), "metadata"))
				res += "|" + oneShot(o.GetAreaPath(nil, "metadata"))
			}
		}); p != "" {
			res = "panic " + p
		}
		return
	}
	want := make([]string, len(ids))
	for k, id := range ids {
		want[k] = ask(alone, aloneO, id)
	}
	workers := 4 + rng.Intn(5)
	got := make([][]string, workers)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < workers; g++ {
		order := rng.Perm(len(ids))
		got[g] = make([]string, len(ids))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for n := 0; n < 3; n++ {
				for _, k := range order {
					got[g][k] = ask(shared, sharedO, ids[k])
					if got[g][k] != want[k] {
						return
					}
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	r.Count("concurrent_lookups", workers*len(ids)*3)
	r.Case(fmt.Sprint("lookups ", label, clean, workers), true)
	for g := range got {
		for k := range ids {
			if got[g][k] != "" && got[g][k] != want[k] {
				key := "lookup:" + spec.Name
				if strings.Split(got[g][k], "|")[0] == strings.Split(want[k], "|")[0] {
					key = "lookup:object path"
				}
				r.Violate(key, fmt.Sprintf("%v: asked concurrently, %q is at %q instead of %q", spec.Cfg, ids[k], got[g][k], want[k]), map[string]any{"spec": spec.Cfg, "id": ids[k]})
				return
			}
		}
	}
}

// sprobe consumes a stream without any lock
type sprobe struct {
	name   string
	pace   string
	chunk  int
	rng    *rand.Rand
	got    []byte
	active atomic.Int32
	calls  atomic.Int32
	fail   bool
}

func (p *sprobe) GetName() string                   { return p.name }
func (p *sprobe) SetFS(fs.FS, bool)                 {}
func (p *sprobe) GetFS() fs.FS                      { return nil }
func (p *sprobe) SetParams(map[string]string) error { return nil }
func (p *sprobe) GetConfig() any                    { return map[string]string{"extensionName": p.name} }
func (p *sprobe) IsRegistered() bool                { return false }
func (p *sprobe) WriteConfig() error                { return nil }
func (p *sprobe) Terminate() error                  { return nil }
func (p *sprobe) StreamObject(_ ocfl.Object, rd io.Reader, _ []string, _ string) error {
	p.active.Add(1)
	defer p.active.Add(-1)
	p.calls.Add(1)
	if p.pace == "late" {
		time.Sleep(2 * time.Millisecond)
	}
	buf := make([]byte, p.chunk)
	var got []byte
	for {
		n, err := rd.Read(buf)
		got = append(got, buf[:n]...)
		switch p.pace {
		case "slow":
			jitter(p.rng)
		case "part":
			if len(got) > 5000 {
				p.got = got
				return nil
			}
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			p.got = got
			return err
		}
	}
	p.got = got
	if p.pace == "linger" {
		time.Sleep(2 * time.Millisecond)
	}
	if p.fail {
		return errProbe
	}
	return nil
}

func (r *Run) c22streams(i int) {
	rng := r.Rng("streams", i)
	m, err := extension.NewGOCFLExtensionManager(&ocfl.ExtensionManagerConfig{ExtensionConfig: &ocfl.ExtensionConfig{ExtensionName: mgrName}})
	if err != nil {
		return
	}
	var probes []*sprobe
	n := 1 + rng.Intn(5)
	for k := 0; k < n; k++ {
		p := &sprobe{name: fmt.Sprintf("NNNN-stream%d", k), pace: pick(rng, []string{"", "slow", "late", "part", "linger"}), chunk: pick(rng, []int{1 << 20, 4096, 511, 70000}), rng: r.Rng("sp", i, k)}
		probes = append(probes, p)
		if err := m.Add(p); err != nil {
			return
		}
	}
	m.Finalize()
	o, stop, err := r.c19object()
	if err != nil {
		r.Count("sequential_runs_that_fail", 1)
		return
	}
	defer stop()
	for k := 0; k < 4; k++ {
		size := pick(rng, []int{0, 1, 511, 4096, 65537, 1 << 20, 1<<20 + 1, 3<<20 + 7})
		data := randBytes(rng, size)
		fails := rng.Intn(4) == 0
		probes[0].fail = fails && probes[0].pace != "part"
		var err error
		if p := guard(func() {
			err = m.StreamObject(o, &chunkReader{bytes.NewReader(data), r.Rng("sc", i, k)}, []string{"x"}, "y")
		}); p != "" {
			r.Violate("panic:"+panicSite(p), p, map[string]any{"case": i})
			return
		}
		bad := ""
		for _, p := range probes {
			if p.active.Load() != 0 {
				bad = "the operation returns while " + p.name + " still reads"
				break
			}
			want := data
			if p.pace == "part" {
				want = data[:min(len(data), len(p.got))]
			}
			if !bytes.Equal(p.got, want) {
				bad = fmt.Sprintf("%s (%s) got other bytes than the file has: %d of %d bytes", p.name, p.pace, len(p.got), len(data))
			}
			if p.calls.Load() != int32(k+1) {
				bad = fmt.Sprintf("%s was called %d times for %d files", p.name, p.calls.Load(), k+1)
			}
			r.Count("stream_bytes_seen", len(p.got))
		}
		if bad == "" && (err != nil) != probes[0].fail {
			bad = fmt.Sprintf("error of the stream: %v, consumer failed: %v", err, probes[0].fail)
		}
		if bad != "" {
			r.Violate("stream", fmt.Sprintf("%s (%d bytes, %d consumers)", bad, size, n), map[string]any{"case": i, "file": k})
			return
		}
		r.Count("streams", 1)
		r.Case(fmt.Sprint("stream ", n, probes[0].pace, size), n > 1)
	}
}
