package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"time"
)

// plan is a single fault: the occ-th call op on path p
type plan struct {
	Op, Path string
	Occ      int
	Mode     string // err, torn, partial, crash, crash-torn
}

func (p plan) String() string { return fmt.Sprintf("%s %s #%d (%s)", p.Op, p.Path, p.Occ, p.Mode) }

// arm installs the fault
func (p plan) arm(rec *Rec) {
	seen := 0
	done := false
	rec.Fault = func(n int, op, pa string) error {
		if done || op != p.Op || pa != p.Path {
			return nil
		}
		seen++
		if seen != p.Occ {
			return nil
		}
		done = true
		switch p.Mode {
		case "torn", "crash-torn":
			rec.torn = true
		case "partial":
			rec.partial = true
		}
		if strings.HasPrefix(p.Mode, "crash") {
			rec.Dead = true
		}
		return errInjected
	}
}

const srcPrefix = "@src"

func fromSrc(p string) bool { return p == srcPrefix || strings.HasPrefix(p, srcPrefix+"/") }

var verSeg = regexp.MustCompile(`/v[0-9]+/`)

// pathClass abstracts a path for coverage
func pathClass(p string) string {
	if fromSrc(p) {
		return "src"
	}
	b := path.Base(p)
	if loc := verSeg.FindStringIndex(p); loc != nil {
		switch {
		case strings.HasPrefix(b, "inventory.json."):
			return "ver-sidecar"
		case b == "inventory.json":
			return "ver-inventory"
		case strings.Contains(b, ".jsonl"):
			return "content-jsonl"
		}
		return "content"
	}
	switch {
	case strings.Contains(p, "extensions"):
		if b == "config.json" {
			return "ext-config"
		}
		return "ext-data"
	case strings.HasPrefix(b, "inventory.json."):
		return "sidecar"
	case b == "inventory.json":
		return "inventory"
	case strings.HasPrefix(b, "0="):
		return "namaste"
	case b == "ocfl_layout.json":
		return "layout"
	}
	return "dir"
}

// plansOf lists the fault points of a recorded run
func plansOf(evs []Event, crash bool) []plan {
	occ := map[string]int{}
	var res []plan
	for _, e := range evs {
		k := e.Op + " " + e.Path
		occ[k]++
		if crash {
			if mutating(e.Op) {
				res = append(res, plan{e.Op, e.Path, occ[k], "crash"})
				if e.Op == "write" {
					res = append(res, plan{e.Op, e.Path, occ[k], "crash-torn"})
				}
			}
			continue
		}
		res = append(res, plan{e.Op, e.Path, occ[k], "err"})
		switch e.Op {
		case "write":
			res = append(res, plan{e.Op, e.Path, occ[k], "torn"})
		case "read", "readdir":
			res = append(res, plan{e.Op, e.Path, occ[k], "partial"})
		}
	}
	return res
}

func (p plan) class() string { return p.Op + ":" + pathClass(p.Path) + ":" + p.Mode }

// choose samples plans: every class once, then random ones up to n (n<=0: all)
func (w *World) choose(all []plan, n int) []plan {
	if n <= 0 || len(all) <= n {
		return all
	}
	idx := w.rng.Perm(len(all))
	seen := map[string]bool{}
	var res, rest []plan
	for _, i := range idx {
		if c := all[i].class(); !seen[c] {
			seen[c] = true
			res = append(res, all[i])
		} else {
			rest = append(rest, all[i])
		}
	}
	for _, p := range rest {
		if len(res) >= n {
			break
		}
		res = append(res, p)
	}
	return res
}

// fcase is an update that is executed again and again with faults on copies of the storage root
type fcase struct {
	w       *World
	id      string
	u       *Upd
	base    Tree
	twin    Tree
	next    map[string][]byte
	isNew   bool
	objPath string
	events  []Event
	cleanup func()
}

// fres is the result of a faulted run
type fres struct {
	err    error
	panicd string
	rec    *Rec
	dir    string
	hit    bool
	env    *Env
}

// newCase generates an update on top of the history of the world and executes it without faults
func (w *World) newCase(opt HistOpt) *fcase {
	fc := &fcase{w: w}
	fc.id = w.newID(90)
	if len(w.ids) > 0 && w.rng.Intn(4) != 0 {
		fc.id = pick(w.rng, w.ids)
	}
	fc.u = w.genUpd(fc.id, opt)
	var err error
	fc.cleanup, err = w.prepare(fc.u)
	if err != nil {
		return nil
	}
	fc.base = readTree(w.dir)
	prev := map[string][]byte{}
	if o := w.objs[fc.id]; o != nil {
		prev = o.head()
		fc.objPath = o.Path
	} else {
		fc.isNew = true
	}
	fc.next = modelApply(w.cfg, prev, fc.u)
	w.log = append(w.log, "under faults: "+describe(fc.id, fc.u))
	res := fc.run(nil)
	defer os.RemoveAll(res.dir)
	if res.panicd != "" {
		w.violate("op-panic:"+panicSite(res.panicd), "an update panicked: "+res.panicd)
		return nil
	}
	if res.err != nil {
		w.violate("op-error:"+errSummary(res.err), "a legitimate update failed: "+res.err.Error())
		return nil
	}
	fc.twin = readTree(res.dir)
	fc.events = res.rec.Events
	if fc.isNew {
		if ps := findObjects(fc.twin)[fc.id]; len(ps) > 0 {
			fc.objPath = ps[0]
		}
	}
	return fc
}

// run executes the update on a copy of the root, with the fault (nil: none)
func (fc *fcase) run(p *plan) *fres {
	w := fc.w
	res := &fres{rec: NewRec(), dir: w.tmpDir()}
	os.MkdirAll(res.dir, 0755)
	if err := writeTree(res.dir, fc.base); err != nil {
		res.err = fmt.Errorf("harness: %w", err)
		return res
	}
	u := *fc.u
	u.SrcRec, u.SrcPrefix = res.rec, srcPrefix
	if p == nil {
		res.rec.Keep = true
	} else {
		p.arm(res.rec)
	}
	res.err, res.panicd = Guard(func() error {
		e, err := openRoot(res.dir, w.cfg, res.rec)
		res.env = e
		if err != nil {
			return err
		}
		return e.update(fc.id, &u)
	})
	res.hit = res.rec.FaultHit
	w.r.Count("faulted_operations", 1)
	w.r.Count("fs_calls_observed", res.rec.N)
	return res
}

// headState resolves the head state of an object in a tree, independently of gocfl
func headState(t Tree, obj string) (state map[string][]byte, head string, err error) {
	inv, err := readInv(t[obj+"/inventory.json"])
	if err != nil {
		return nil, "", err
	}
	state = map[string][]byte{}
	for l, d := range inv.logical(inv.Head) {
		ok := false
		for md, ps := range inv.Manifest {
			if strings.EqualFold(md, d) {
				for _, p := range ps {
					b, is := t[obj+"/"+p]
					if !is {
						return nil, "", fmt.Errorf("content %s of %q is not there", p, l)
					}
					state[l] = b
					ok = true
				}
			}
		}
		if !ok {
			return nil, "", fmt.Errorf("state digest of %q is not in the manifest", l)
		}
	}
	return state, inv.Head, nil
}

// normalJSONL makes stored metadata comparable: times of access and system data vary
func normalJSONL(p string, b []byte) string {
	b, err := unpack(p, b)
	if err != nil {
		return "broken: " + err.Error()
	}
	var out []string
	for _, l := range bytes.Split(b, []byte("\n")) {
		if len(l) == 0 {
			continue
		}
		m := map[string]any{}
		if err := json.Unmarshal(l, &m); err != nil {
			out = append(out, "broken line")
			continue
		}
		if x, ok := m["meta"].(map[string]any); ok {
			delete(x, "aTime")
			delete(x, "cTime")
			delete(x, "sysStat")
		}
		out = append(out, canon(m))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

var createdRe = regexp.MustCompile(`"created": "[^"]*"`)

// incomplete compares the result of an update that reported success with the fault-free twin
func (fc *fcase) incomplete(t Tree) (bad []string) {
	w := fc.w
	for _, k := range sortedKeys(fc.twin.files()) {
		b, ok := t[k]
		if !ok {
			bad = append(bad, "missing file "+k)
			continue
		}
		n := path.Base(k)
		switch {
		case bytes.Equal(b, fc.twin[k]):
		case strings.HasPrefix(n, "inventory.json"):
		case strings.Contains(n, ".jsonl"):
			if x, y := normalJSONL(k, b), normalJSONL(k, fc.twin[k]); x != y {
				bad = append(bad, fmt.Sprintf("metadata file %s differs from that of the undisturbed run: %s / %s", k, clip(x, 300), clip(y, 300)))
			}
		default:
			bad = append(bad, fmt.Sprintf("file %s has %d bytes, %d in the undisturbed run", k, len(b), len(fc.twin[k])))
		}
	}
	for _, k := range sortedKeys(t.files()) {
		if _, ok := fc.twin[k]; !ok {
			bad = append(bad, "additional file "+k)
		}
	}
	for _, e := range oracleRoot(t, fc.objects()) {
		bad = append(bad, "not conforming: "+e)
	}
	if fc.objPath != "" {
		st, head, err := headState(t, fc.objPath)
		if err != nil {
			bad = append(bad, "head state: "+err.Error())
		} else {
			if ti, err := readInv(fc.twin[fc.objPath+"/inventory.json"]); err == nil && ti.Head != head {
				bad = append(bad, fmt.Sprintf("head is %s, %s in the undisturbed run", head, ti.Head))
			}
			if d := stateDiff(w.cfg.pure(fc.next), w.cfg.pure(st)); len(d) > 0 {
				bad = append(bad, fmt.Sprintf("state: %v", first(d, 5)))
			}
		}
	}
	return
}

// objects lists path and id of the objects after the update
func (fc *fcase) objects() map[string]string {
	objs := map[string]string{}
	for _, o := range fc.w.objs {
		objs[o.Path] = o.ID
	}
	if fc.objPath != "" {
		objs[fc.objPath] = fc.id
	}
	return objs
}

// errClass makes a key of a fault point
func (p plan) key() string { return p.Op + ":" + pathClass(p.Path) + ":" + p.Mode }

// strict: faults for which the operation has to return an error in any case
func (p plan) strict() bool {
	if fromSrc(p.Path) {
		return p.Op == "open" || p.Op == "read" || p.Op == "readdir" || p.Op == "readfile"
	}
	switch p.Op {
	case "create", "write", "closew", "rename":
		return true
	}
	return false
}

func (w *World) faultViolate(key, msg string, p plan, fc *fcase) {
	w.bad = true
	w.r.Violate(key, fmt.Sprintf("%s\n    fault: %v\n    history: %s", msg, p, strings.Join(w.log, "\n             ")), map[string]any{"config": w.cfg, "history": w.log, "fault": p})
}

func faultCfg(r *Run) func(r *Run, i int) *Cfg {
	return func(r *Run, i int) *Cfg {
		if i%2 == 0 {
			return nil
		}
		d := filepath.Join(r.Scratch, fmt.Sprintf("m%d", i))
		os.MkdirAll(d, 0755)
		return richCfg(r.Rng("rich", i), d)
	}
}

func init() {
	register("C17", "exploration", "random histories; the next update (new or existing object) or root initialisation is executed once undisturbed with its filesystem calls recorded (source and repository), then once per chosen call with that call failing (error, torn write, partial read or listing); non-trivial when the fault was hit; a run that reports success is compared with the undisturbed run, the model and the OCFL oracle, and a failing create, write, close or rename of the repository or open, read or listing of the source must be reported; after a failure the same update is tried again without faults and must either be refused or complete", c17)
	register("C18", "exploration", "random histories; the next update is executed once undisturbed with its calls recorded, then once per chosen call ending there (process death, also within a write) or failing there; non-trivial when the fault was hit; afterwards the committed version directories and all other objects are compared byte for byte, earlier versions are recovered from the version inventories, and, where the root inventory still is the old one, through gocfl", c18)
}

func c17(r *Run) {
	r.Assume = []string{"a failing call has no effect or, for writes, a partial one; single faults"}
	opt := HistOpt{Odd: true, Ops: true, Mixed: true}
	per := r.N(26, 0)
	runHistories(r, "f", r.N(90, 400), opt, faultCfg(r), func(w *World, s *StepRes) {}, func(w *World) {
		w.rootFaults(per)
		for k := 0; k < 2 && !w.bad; k++ {
			fc := w.newCase(opt)
			if fc == nil {
				return
			}
			for _, p := range w.choose(plansOf(fc.events, false), per) {
				fc.judge17(p)
			}
			fc.cleanup()
		}
	})
}

func (fc *fcase) judge17(p plan) {
	w := fc.w
	res := fc.run(&p)
	defer os.RemoveAll(res.dir)
	w.r.Case(p.class()+w.cfg.Label, res.hit)
	if !res.hit {
		w.r.Count("fault_not_reached", 1)
		return
	}
	w.r.Count("faults_hit", 1)
	w.r.Count("hit_"+p.Op+"_"+pathClass(p.Path), 1)
	if res.panicd != "" {
		fc.w.faultViolate("fault-panic:"+panicSite(res.panicd), "an update with a failing filesystem call panicked: "+res.panicd, p, fc)
		return
	}
	if res.err != nil {
		w.r.Count("faults_reported", 1)
		fc.retry(p, res)
		return
	}
	if p.strict() {
		fc.w.faultViolate("fault-unreported:"+p.key(), "the update reported success although a call failed", p, fc)
		return
	}
	w.r.Count("faults_tolerated", 1)
	if bad := fc.incomplete(readTree(res.dir)); len(bad) > 0 {
		fc.w.faultViolate("fault-incomplete:"+p.key(), fmt.Sprintf("the update reported success although a call failed, and its result is incomplete: %v", first(bad, 6)), p, fc)
	}
}

// retry executes the failed update again, undisturbed
func (fc *fcase) retry(p plan, res *fres) {
	w := fc.w
	res.rec.Fault = nil
	u := *fc.u
	err, pan := Guard(func() error {
		e, err := openRoot(res.dir, w.cfg, nil)
		if err != nil {
			return err
		}
		return e.update(fc.id, &u)
	})
	w.r.Count("retries", 1)
	if pan != "" {
		fc.w.faultViolate("retry-panic:"+panicSite(pan), "repeating an update that failed panicked: "+pan, p, fc)
		return
	}
	if err != nil {
		w.r.Count("retries_refused", 1)
		return
	}
	t := readTree(res.dir)
	bad := fc.incomplete(t)
	if fc.objPath != "" {
		// the failure may have come after the version was complete; repeating is a further update then
		st, head, err := headState(t, fc.objPath)
		ti, err2 := readInv(fc.twin[fc.objPath+"/inventory.json"])
		if err == nil && err2 == nil && head != ti.Head {
			bad = nil
			for _, e := range oracleRoot(t, fc.objects()) {
				bad = append(bad, "not conforming: "+e)
			}
			if d := stateDiff(w.cfg.pure(modelApply(w.cfg, fc.next, fc.u)), w.cfg.pure(st)); len(d) > 0 {
				bad = append(bad, fmt.Sprintf("state: %v", first(d, 5)))
			}
			w.r.Count("retries_further_version", 1)
		}
	}
	if len(bad) > 0 {
		fc.w.faultViolate("retry-incomplete:"+p.key(), fmt.Sprintf("after an update failed (%s) it was repeated and reported success, but left: %v", errSummary(res.err), first(bad, 6)), p, fc)
	}
}

// rootFaults initialises the storage root with faults
func (w *World) rootFaults(per int) {
	try := func(p *plan) (Tree, *Rec, error, string) {
		dir := w.tmpDir()
		defer os.RemoveAll(dir)
		rec := NewRec()
		if p == nil {
			rec.Keep = true
		} else {
			p.arm(rec)
		}
		err, pan := Guard(func() error {
			_, err := createRoot(dir, w.cfg, rec)
			return err
		})
		return readTree(dir), rec, err, pan
	}
	twin, rec, err, pan := try(nil)
	if err != nil || pan != "" {
		return
	}
	for _, p := range w.choose(plansOf(rec.Events, false), per) {
		t, rec, err, pan := try(&p)
		if !rec.FaultHit {
			continue
		}
		w.r.Case("root:"+p.class()+w.cfg.Label, true)
		w.r.Count("root_faults_hit", 1)
		if pan != "" {
			w.faultViolate("root-panic:"+panicSite(pan), "initialising a storage root with a failing filesystem call panicked: "+pan, p, nil)
			continue
		}
		if err != nil {
			continue
		}
		if p.strict() {
			w.faultViolate("root-unreported:"+p.key(), "initialising the storage root reported success although a call failed", p, nil)
			continue
		}
		if d := diffTrees(twin, t); len(d) > 0 {
			w.faultViolate("root-incomplete:"+p.key(), fmt.Sprintf("initialising the storage root reported success although a call failed, but its result differs: %v", first(d, 6)), p, nil)
		}
	}
}

// ---- C18 ------------------------------------------------------------------

func c18(r *Run) {
	r.Assume = []string{"a crash leaves the effects of all calls before it and none after it (a torn write: half of it); loss of data that the operating system has not written yet is not simulated"}
	opt := HistOpt{Odd: true, Ops: true, Mixed: true}
	per := r.N(24, 0)
	runHistories(r, "k", r.N(80, 400), opt, faultCfg(r), func(w *World, s *StepRes) {}, func(w *World) {
		for k := 0; k < 2 && !w.bad; k++ {
			fc := w.newCase(opt)
			if fc == nil {
				return
			}
			for _, p := range w.choose(plansOf(fc.events, true), per) {
				fc.judge18(p)
			}
			for _, p := range w.choose(plansOf(fc.events, false), per/2) {
				fc.judge18(p)
			}
			fc.cleanup()
		}
	})
}

func (fc *fcase) judge18(p plan) {
	w := fc.w
	res := fc.run(&p)
	defer os.RemoveAll(res.dir)
	w.r.Case(p.class()+w.cfg.Label, res.hit)
	if !res.hit {
		w.r.Count("fault_not_reached", 1)
		return
	}
	w.r.Count("interrupted_"+p.Op+"_"+pathClass(p.Path), 1)
	if res.panicd != "" && !strings.HasPrefix(p.Mode, "crash") {
		fc.w.faultViolate("fault-panic:"+panicSite(res.panicd), "an update with a failing filesystem call panicked: "+res.panicd, p, fc)
		return
	}
	t := readTree(res.dir)
	mine := func(k string) bool { return fc.objPath != "" && strings.HasPrefix(k, fc.objPath+"/") }
	for _, k := range sortedKeys(fc.base.files()) {
		v := fc.base[k]
		if mine(k) {
			rel := k[len(fc.objPath)+1:]
			seg, rest, _ := strings.Cut(rel, "/")
			if rest == "" && !strings.HasPrefix(rel, "0=") {
				continue // root inventory and sidecar
			}
			if seg == "extensions" {
				continue
			}
		}
		b, ok := t[k]
		if !ok {
			w.faultViolate("lost:"+pathClass(k), fmt.Sprintf("an interrupted update of %q removed %s", fc.id, k), p, fc)
			return
		}
		if !bytes.Equal(b, v) {
			w.faultViolate("changed:"+pathClass(k), fmt.Sprintf("an interrupted update of %q changed %s", fc.id, k), p, fc)
			return
		}
	}
	for _, k := range sortedKeys(t) {
		if _, ok := fc.base[k]; ok || mine(k) || fc.objPath != "" && strings.HasPrefix(fc.objPath+"/", k) {
			continue
		}
		w.faultViolate("stray:"+pathClass(k), fmt.Sprintf("an interrupted update of %q left %s outside of the object", fc.id, k), p, fc)
		return
	}
	if fc.isNew {
		w.r.Count("interrupted_creations", 1)
		return
	}
	o := w.objs[fc.id]
	for _, k := range sortedKeys(t) {
		if _, ok := fc.base[k]; ok || !mine(k) {
			continue
		}
		seg, _, _ := strings.Cut(k[len(fc.objPath)+1:], "/")
		for _, v := range o.Versions {
			if seg == v.Name {
				w.faultViolate("added:"+pathClass(k), fmt.Sprintf("an interrupted update of %q added %s to a committed version", fc.id, k), p, fc)
				return
			}
		}
	}
	// recovery from the version inventories
	for _, v := range o.Versions {
		b := t[fc.objPath+"/"+v.Name+"/inventory.json"]
		inv, err := readInv(b)
		if err != nil {
			w.faultViolate("recover", fmt.Sprintf("inventory of %s is unreadable: %v", v.Name, err), p, fc)
			return
		}
		if s := strings.Fields(string(t[fc.objPath+"/"+v.Name+"/inventory.json."+inv.Digest])); len(s) != 2 || s[0] != digest(inv.Digest, b) {
			w.faultViolate("recover", fmt.Sprintf("sidecar of %s does not match", v.Name), p, fc)
			return
		}
		got := map[string][]byte{}
		for l, d := range inv.logical(v.Name) {
			for _, c := range inv.Manifest[d] {
				got[l] = t[fc.objPath+"/"+c]
			}
		}
		if d := stateDiff(w.cfg.pure(v.State), w.cfg.pure(got)); len(d) > 0 {
			w.faultViolate("recover", fmt.Sprintf("version %s cannot be recovered: %v", v.Name, first(d, 4)), p, fc)
			return
		}
		w.r.Count("versions_recovered", 1)
	}
	// through gocfl, when the root inventory has not been touched
	inv := fc.objPath + "/inventory.json"
	same := bytes.Equal(t[inv], fc.base[inv])
	for k, b := range fc.base {
		if strings.HasPrefix(k, inv+".") || strings.HasPrefix(k, fc.objPath+"/extensions/") && strings.HasSuffix(k, ".json") {
			same = same && bytes.Equal(t[k], b)
		}
	}
	if !same {
		w.r.Count("root_inventory_touched", 1)
		return
	}
	v := pick(w.rng, o.Versions)
	dir := w.tmpDir()
	defer os.RemoveAll(dir)
	var got Tree
	area := ""
	if w.cfg.Areas != nil {
		area = "full"
	}
	err, pan := Guard(func() error {
		e, err := openRoot(res.dir, w.cfg, nil)
		if err != nil {
			return err
		}
		got, err = e.extract(fc.id, v.Name, false, area, dir, nil)
		return err
	})
	if pan != "" || err != nil {
		w.faultViolate("extract-after", fmt.Sprintf("after an interrupted update version %s cannot be extracted: %v %s", v.Name, err, pan), p, fc)
		return
	}
	if d := stateDiff(w.cfg.pure(v.State), w.cfg.pure(got.files())); len(d) > 0 {
		w.faultViolate("extract-after", fmt.Sprintf("after an interrupted update version %s extracts differently: %v", v.Name, first(d, 4)), p, fc)
		return
	}
	w.r.Count("versions_extracted_after_interruption", 1)
}

// ---- goroutines -----------------------------------------------------------

// leakedGoroutines waits for the goroutines of the code under test to end and returns the stacks of those that do not
func leakedGoroutines(wait time.Duration) []string {
	end := time.Now().Add(wait)
	for {
		buf := make([]byte, 4<<20)
		n := runtime.Stack(buf, true)
		var bad []string
		for _, g := range strings.Split(string(buf[:n]), "\n\n") {
			if strings.Contains(g, "gocfl/v2/pkg/") && !strings.Contains(g, "verifharness") {
				bad = append(bad, g)
			}
		}
		if len(bad) == 0 || time.Now().After(end) {
			return bad
		}
		time.Sleep(20 * time.Millisecond)
	}
}
