package main

// Files and goroutines are released when an operation returns.

import (
	"context"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"runtime/pprof"
	"strings"
	"time"

	"github.com/je4/filesystem/v3/pkg/osfsrw"
	"github.com/je4/gocfl/v2/pkg/ocfl"
)

const dstPrefix = "@dst"

func init() {
	register("C23", "exploration", "random histories; updates, root initialisations and every reading operation (load, list, validate, metadata, statistics, extraction) executed undisturbed and with single failing calls of source, repository and target; after each return the files still open are listed, at the end the goroutines started by gocfl; non-trivial when files were opened", c23)
}

// rop is a reading operation
type rop struct {
	name string
	run  func(e *Env, dst *XFS) error
}

// readingOps lists the operations that read a storage root, for one of its objects
func (w *World) readingOps(id, objPath, ver string) []rop {
	area := "full"
	if w.cfg.Areas == nil {
		area = ""
	}
	man := w.rng.Intn(2) == 0
	withObj := func(e *Env, fn func(o ocfl.Object) error) error {
		o, err := e.SR.LoadObjectByID(id)
		if err != nil {
			return err
		}
		return fn(o)
	}
	return []rop{
		{"load", func(e *Env, dst *XFS) error { return nil }},
		{"list", func(e *Env, dst *XFS) error {
			if _, err := e.SR.GetObjectFolders(); err != nil {
				return err
			}
			if _, err := e.SR.GetFiles(); err != nil {
				return err
			}
			_, err := e.SR.GetFolders()
			return err
		}},
		{"check", func(e *Env, dst *XFS) error { return e.SR.Check() }},
		{"check-id", func(e *Env, dst *XFS) error { return e.SR.CheckObjectByID(id) }},
		{"check-folder", func(e *Env, dst *XFS) error { return e.SR.CheckObjectByFolder(objPath) }},
		{"exists", func(e *Env, dst *XFS) error { _, err := e.SR.ObjectExists(id); return err }},
		{"metadata", func(e *Env, dst *XFS) error {
			return withObj(e, func(o ocfl.Object) error { _, err := o.GetMetadata(); return err })
		}},
		{"object-stat", func(e *Env, dst *XFS) error {
			return withObj(e, func(o ocfl.Object) error {
				return o.Stat(io.Discard, []ocfl.StatInfo{ocfl.StatExtensionConfigs, ocfl.StatObjectVersions, ocfl.StatObjectVersionState, ocfl.StatObjectManifest, ocfl.StatObjectExtensionConfigs, ocfl.StatObjectExtension})
			})
		}},
		{"object-extract", func(e *Env, dst *XFS) error {
			return withObj(e, func(o ocfl.Object) error { return o.Extract(dst, ver, man, area) })
		}},
		{"stat", func(e *Env, dst *XFS) error { return e.SR.Stat(io.Discard, "", id, nil) }},
		{"stat-all", func(e *Env, dst *XFS) error { return e.SR.Stat(io.Discard, "", "", nil) }},
		{"extractmeta", func(e *Env, dst *XFS) error { _, err := e.SR.ExtractMeta("", id); return err }},
		{"extractmeta-path", func(e *Env, dst *XFS) error { _, err := e.SR.ExtractMeta(objPath, ""); return err }},
		{"extract", func(e *Env, dst *XFS) error { return e.SR.Extract(dst, "", id, ver, man, area) }},
		{"extract-path", func(e *Env, dst *XFS) error { return e.SR.Extract(dst, objPath, "", "latest", man, area) }},
	}
}

// runReading opens the root and runs the operation, with an optional fault; the recorder sees repository and target
func (w *World) runReading(dir string, op rop, p *plan, ro bool) (rec *Rec, out string, err error, pan string) {
	rec = NewRec()
	if p == nil {
		rec.Keep = true
	} else {
		p.arm(rec)
	}
	_ = ro
	out = w.tmpDir()
	os.MkdirAll(out, 0755)
	err, pan = Guard(func() error {
		e, err := openRoot(dir, w.cfg, rec)
		if err != nil {
			return err
		}
		t, err := osfsrw.NewFS(out, nopLogger())
		if err != nil {
			return fmt.Errorf("harness: %w", err)
		}
		x := NewXFS(t, rec)
		x.prefix = dstPrefix
		return op.run(e, x)
	})
	w.r.Count("fs_calls_observed", rec.N)
	return
}

// stillOpen waits a moment for files to be closed
func stillOpen(rec *Rec) []string {
	for i := 0; ; i++ {
		l := rec.OpenHandles()
		if len(l) == 0 || i > 15 {
			return l
		}
		time.Sleep(20 * time.Millisecond)
	}
}

// leakCheck judges the files left open
func (w *World) leakCheck(what string, rec *Rec, p *plan, err error) bool {
	rec.mu.Lock()
	n := rec.nextH
	rec.mu.Unlock()
	class := what
	if p != nil {
		class += ":" + p.class()
	}
	w.r.Case(class+w.cfg.Label, n > 0)
	w.r.Count("operations_watched", 1)
	w.r.Count("files_opened", n)
	if err != nil {
		w.r.Count("operations_failed", 1)
	}
	l := stillOpen(rec)
	if len(l) == 0 {
		return true
	}
	key := "open:" + what
	if fromSrc(l[0]) {
		key += ":src"
	} else if strings.HasPrefix(l[0], dstPrefix) {
		key += ":dst"
	} else {
		key += ":" + pathClass(l[0])
	}
	msg := fmt.Sprintf("%s returned (%v) with files still open: %v", what, err, first(l, 5))
	if p != nil {
		key += ":" + p.Op + "-" + pathClass(p.Path)
		w.faultViolate(key, msg, *p, nil)
	} else {
		w.violate(key, msg)
	}
	return false
}

func labelled(label string, fn func()) {
	pprof.Do(context.Background(), pprof.Labels("case", label), func(context.Context) { fn() })
}

func c23(r *Run) {
	r.Assume = []string{"files opened through the given filesystems are observed; a goroutine counts as ended if it is gone when all operations are over"}
	opt := HistOpt{Odd: true, Ops: true, Mixed: true}
	per := r.N(16, 0)
	runHistories(r, "l", r.N(80, 400), opt, faultCfg(r), func(w *World, s *StepRes) {}, func(w *World) {
		labelled(strings.Join(w.log, "; "), func() { w.leakWorld(opt, per) })
	})
	time.Sleep(200 * time.Millisecond)
	for i := 0; ; i++ {
		l := leakedGoroutines(0)
		if len(l) == 0 || i > 100 {
			labels := ""
			if len(l) > 0 {
				labels = clip(labelsOf(), 3000)
			}
			for _, g := range l {
				r.Violate("goroutine:"+goSite(g), "a goroutine started by gocfl has not ended although all operations returned:\n"+clip(g, 2500)+"\n"+labels, nil)
			}
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	r.Count("goroutine_dumps", 1)
}

var goFrame = regexp.MustCompile(`created by (\S+)`)

func goSite(g string) string {
	if m := goFrame.FindStringSubmatch(g); m != nil {
		return filepath.Base(m[1])
	}
	return "?"
}

// labelsOf renders the goroutine profile with the labels of the cases
func labelsOf() string {
	var b strings.Builder
	pprof.Lookup("goroutine").WriteTo(&b, 1)
	var out []string
	for _, g := range strings.Split(b.String(), "\n\n") {
		if strings.Contains(g, "labels:") && strings.Contains(g, "gocfl/v2/pkg/") {
			out = append(out, g)
		}
	}
	return strings.Join(out, "\n\n")
}

func (w *World) leakWorld(opt HistOpt, per int) {
	// root initialisation
	rootRun := func(p *plan) (*Rec, error) {
		dir := w.tmpDir()
		defer os.RemoveAll(dir)
		rec := NewRec()
		if p == nil {
			rec.Keep = true
		} else {
			p.arm(rec)
		}
		err, _ := Guard(func() error {
			_, err := createRoot(dir, w.cfg, rec)
			return err
		})
		return rec, err
	}
	rec, err := rootRun(nil)
	if !w.leakCheck("init", rec, nil, err) {
		return
	}
	for _, p := range w.choose(plansOf(rec.Events, false), per) {
		rec, err := rootRun(&p)
		if rec.FaultHit && !w.leakCheck("init", rec, &p, err) {
			return
		}
	}
	// update
	fc := w.newCase(opt)
	if fc == nil {
		return
	}
	defer fc.cleanup()
	for _, p := range append([]plan{{}}, w.choose(plansOf(fc.events, false), 3*per)...) {
		pp := &p
		if p.Op == "" {
			pp = nil
		}
		res := fc.run(pp)
		os.RemoveAll(res.dir)
		if !w.leakCheck("update", res.rec, pp, res.err) {
			return
		}
	}
	// reading
	if len(w.ids) == 0 {
		return
	}
	id := pick(w.rng, w.ids)
	o := w.objs[id]
	for _, op := range w.readingOps(id, o.Path, pick(w.rng, o.Versions).Name) {
		rec, out, err, pan := w.runReading(w.dir, op, nil, true)
		os.RemoveAll(out)
		if pan != "" || err != nil {
			w.violate("op-error:"+op.name+errSummary(err), fmt.Sprintf("%s failed: %v %s", op.name, err, pan))
			return
		}
		if !w.leakCheck(op.name, rec, nil, err) {
			return
		}
		for _, p := range w.choose(plansOf(rec.Events, false), per/2) {
			rec, out, err, _ := w.runReading(w.dir, op, &p, true)
			os.RemoveAll(out)
			if rec.FaultHit && !w.leakCheck(op.name, rec, &p, err) {
				return
			}
		}
	}
}
