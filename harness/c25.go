package main

// Reading operations leave the repository alone and need no write permission.

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"strings"

	"github.com/je4/filesystem/v3/pkg/osfsrw"
)

func init() {
	register("C25", "exploration", "roots of random histories, of an independent writer and altered or damaged ones; every reading operation (load, list, validate, metadata, statistics, extraction, the web viewer) and updates that change nothing, on a filesystem that records and refuses every writing call and on one without any writing interface; no writing call, unchanged files, directories and modification times, same success as on a writable filesystem; non-trivial when an object was read", c25)
}

// plainFS offers reading only, without any further interface
type plainFS struct{ fs.FS }

func (p plainFS) Open(name string) (fs.File, error) { return p.FS.Open(path.Clean(name)) }
func (p plainFS) ReadDir(name string) ([]fs.DirEntry, error) {
	return fs.ReadDir(p.FS, path.Clean(name))
}
func (p plainFS) Stat(name string) (fs.FileInfo, error) { return fs.Stat(p.FS, path.Clean(name)) }
func (p plainFS) Sub(name string) (fs.FS, error) {
	name = path.Clean(name)
	if fi, err := fs.Stat(p.FS, name); err != nil {
		return nil, err
	} else if !fi.IsDir() {
		return nil, &fs.PathError{Op: "sub", Path: name, Err: fs.ErrInvalid}
	}
	s, err := fs.Sub(p.FS, name)
	return plainFS{s}, err
}

// stamps lists files and directories with their modification times
func stamps(dir string) map[string]string {
	m := map[string]string{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		fi, err := d.Info()
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		m[filepath.ToSlash(rel)] = fmt.Sprint(fi.Mode(), " ", fi.ModTime().UnixNano(), " ", fi.Size())
		if fi.IsDir() {
			m[filepath.ToSlash(rel)] = fmt.Sprint(fi.Mode(), " ", fi.ModTime().UnixNano())
		}
		return nil
	})
	return m
}

func stampDiff(a, b map[string]string) string {
	for _, k := range sortedKeys(a) {
		if v, ok := b[k]; !ok {
			return "removed " + k
		} else if v != a[k] {
			return "changed " + k + " (" + a[k] + " -> " + v + ")"
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok {
			return "added " + k
		}
	}
	return ""
}

func viewOps(id, ver string, digests []string) rop {
	return rop{"view", func(e *Env, dst *XFS) error {
		v, err := startViewer(e.SR)
		if err != nil {
			return err
		}
		defer v.stop()
		x := "/object/id/" + url.PathEscape(id)
		l := []string{"/", x, x + "/manifest", x + "/version/" + url.PathEscape(ver), x + "/report", x + "/report?full=1", "/static/", "/object/id/none", x + "/detail/none"}
		for _, d := range digests {
			l = append(l, x+"/detail/"+d, x+"/download/"+d+"/x")
		}
		for _, p := range l {
			// a transfer which breaks off is the answer for a damaged file
			if _, _, err := v.get(p); err != nil && !errors.Is(err, io.ErrUnexpectedEOF) {
				return fmt.Errorf("harness: GET %s: %w", p, err)
			}
		}
		return nil
	}}
}

func c25(r *Run) {
	r.Assume = []string{"access times are not compared", "updates of objects with metafile or mets configurations, which have to store a file with each update, are not counted as updates without changes"}
	opt := HistOpt{Odd: true, Ops: true, Noop: true, Mixed: true}
	runHistories(r, "ro", r.N(120, 700), opt, faultCfg(r), func(w *World, s *StepRes) {}, func(w *World) {
		if len(w.ids) == 0 {
			return
		}
		for n := 0; n < r.N(2, 5) && !w.bad; n++ {
			id := pick(w.rng, w.ids)
			o := w.objs[id]
			w.readOnly(w.dir, id, o.Path, pick(w.rng, o.Versions).Name, "history")
		}
		for n := 0; n < r.N(4, 10) && !w.bad; n++ {
			w.noopUpdate()
		}
		// damaged repositories
		t := readTree(w.dir)
		v := &vroot{dir: w.dir, t: t, cfg: w.cfg, feat: w.cfg.Label}
		for _, ps := range findObjects(t) {
			v.objs = append(v.objs, ps...)
		}
		sortStrings(v.objs)
		for n := 0; n < r.N(4, 12) && !w.bad && len(v.objs) > 0; n++ {
			m := t.clone()
			class := hostile(w.rng, v, m)
			dir := w.tmpDir()
			if err := writeTree(dir, plantable(m)); err != nil {
				os.RemoveAll(dir)
				continue
			}
			id := pick(w.rng, w.ids)
			o := w.objs[id]
			w.readOnly(dir, id, o.Path, pick(w.rng, o.Versions).Name, "damaged "+class)
			os.RemoveAll(dir)
		}
	})
	r.Parallel(r.N(40, 400), func(i int) {
		rng := r.Rng("roforeign", i)
		t, _, paths, ver := foreignRoot(rng, 1+rng.Intn(2))
		dir := filepath.Join(r.Scratch, fmt.Sprintf("rof%d", i))
		defer os.RemoveAll(dir)
		w := &World{r: r, rng: rng, cfg: &Cfg{Ver: ver, Digest: "sha512", Label: "foreign"}, dir: dir, tmp: dir + "-tmp", objs: map[string]*MObj{}}
		defer os.RemoveAll(w.tmp)
		if err := writeTree(dir, t); err != nil {
			panic(err)
		}
		p := pick(rng, paths)
		inv, err := readInv(t[p+"/inventory.json"])
		if err != nil {
			panic(err)
		}
		w.readOnly(dir, inv.ID, p, inv.Head, "foreign")
	})
}

// readOnly performs the reading operations
func (w *World) readOnly(dir, id, objPath, ver, kind string) {
	r := w.r
	before := stamps(dir)
	var digests []string
	if b, err := os.ReadFile(filepath.Join(dir, objPath, "inventory.json")); err == nil {
		if inv, err := readInv(b); err == nil {
			for d := range inv.Manifest {
				digests = append(digests, d)
			}
			sortStrings(digests)
			digests = first(digests, 3)
		}
	}
	ops := w.readingOps(id, objPath, ver)
	if w.rng.Intn(3) == 0 {
		ops = append(ops, viewOps(id, ver, digests))
	}
	for _, op := range ops {
		run := func(mode string) (rec *Rec, err error, pan string) {
			rec = NewRec()
			rec.ReadOnly = mode == "refusing"
			out := w.tmpDir()
			defer os.RemoveAll(out)
			os.MkdirAll(out, 0755)
			err, pan = Guard(func() error {
				inner, err := osfsrw.NewFS(dir, nopLogger())
				if err != nil {
					return fmt.Errorf("harness: %w", err)
				}
				var fsys fs.FS = NewXFS(inner, rec)
				if mode == "plain" {
					fsys = plainFS{os.DirFS(dir)}
				}
				e, err := baseEnvFS(dir, fsys, w.cfg, rec)
				if err != nil {
					return fmt.Errorf("harness: %w", err)
				}
				if err := e.load(); err != nil {
					return err
				}
				t, err := osfsrw.NewFS(out, nopLogger())
				if err != nil {
					return fmt.Errorf("harness: %w", err)
				}
				return op.run(e, NewXFS(t, NewRec()))
			})
			return
		}
		var base error
		for i, mode := range []string{"writable", "refusing", "plain"} {
			rec, err, pan := run(mode)
			r.Case(fmt.Sprint(op.name, mode, kind, w.cfg.Label), true)
			r.Count("operations_"+mode, 1)
			r.Count("fs_calls_observed", rec.N)
			report := func(key, msg string) {
				w.bad = true
				r.Violate(key+":"+op.name, fmt.Sprintf("%s\n    %s of %q on a %s filesystem (%s, %s)\n    history: %s", msg, op.name, id, mode, kind, w.cfg.Label, strings.Join(w.log, "\n             ")), map[string]any{"config": w.cfg, "history": w.log, "operation": op.name, "mode": mode, "kind": kind})
			}
			if err != nil && strings.HasPrefix(err.Error(), "harness:") {
				report("harness", err.Error())
				return
			}
			if pan != "" {
				if !strings.HasPrefix(kind, "damaged") {
					report("panic:"+panicSite(pan), pan)
				}
				break
			}
			if len(rec.Mutations) > 0 {
				report("call:"+rec.Mutations[0].Op+"-"+pathClass(rec.Mutations[0].Path), fmt.Sprintf("a reading operation calls %s %s", rec.Mutations[0].Op, rec.Mutations[0].Path))
				return
			}
			if d := stampDiff(before, stamps(dir)); d != "" {
				report("changed", "a reading operation changes the repository: "+d)
				return
			}
			if i == 0 {
				base = err
				if err != nil && kind == "history" {
					report("op-error"+errSummary(err), "failed: "+err.Error())
					return
				}
			} else if base == nil && err != nil {
				report("denied:"+mode, "fails without permission to write: "+err.Error())
				return
			}
		}
	}
}

// noopUpdate updates an object with what it has
func (w *World) noopUpdate() {
	rng, r := w.rng, w.r
	for _, e := range w.cfg.Obj {
		if e.Name == "NNNN-metafile" || e.Name == "NNNN-mets" {
			return
		}
	}
	id := pick(rng, w.ids)
	o := w.objs[id]
	cur := w.cfg.pure(o.head())
	u := genUpdHead(rng)
	u.Dedup = true
	kind := ""
	switch rng.Intn(4) {
	case 0:
		kind = "nothing"
	case 1, 2:
		kind = "same files"
		u.Echo = rng.Intn(2) == 0
		area := ""
		src := map[string][]byte{}
		if w.cfg.Areas != nil {
			area = pick(rng, sortedKeys(w.cfg.Areas))
		}
		pre, _ := w.cfg.prefix(area)
		for k, b := range cur {
			if pre == "" {
				src[k] = b
			} else if strings.HasPrefix(k, pre+"/") {
				src[k[len(pre)+1:]] = b
			}
		}
		if len(src) == 0 {
			u.Echo = false
		}
		if w.cfg.Areas != nil {
			u.Echo = false
		}
		if !u.Echo {
			// a part of them
			for _, k := range sortedKeys(src) {
				if rng.Intn(4) == 0 {
					delete(src, k)
				}
			}
		}
		u.Ops = []Op{{Kind: "folder", Area: area, Src: src}}
		// folders may be something new (filesystem extension)
		if !sameState(modelApply(w.cfg, o.head(), u), o.head()) {
			return
		}
	case 3:
		kind = "absent"
		u.Ops = []Op{{Kind: "delete", Path: "no such file"}, {Kind: "rename", Path: "no such file", To: "x"}}
	}
	for _, ro := range []bool{true, false} {
		before := stamps(w.dir)
		rec := NewRec()
		rec.ReadOnly = ro
		cleanup, err := w.prepare(u)
		if err != nil {
			return
		}
		err, pan := Guard(func() error {
			e, err := openRoot(w.dir, w.cfg, rec)
			if err != nil {
				return err
			}
			return e.update(id, u)
		})
		cleanup()
		r.Case(fmt.Sprint("noop ", kind, ro, u.Echo, w.cfg.Label), true)
		r.Count("noop_updates", 1)
		report := func(key, msg string) {
			w.bad = true
			r.Violate(key+":noop "+kind, fmt.Sprintf("%s\n    update of %q with %s returned %v %s\n    history: %s", msg, id, describe(id, u), err, pan, strings.Join(w.log, "\n             ")), map[string]any{"config": w.cfg, "history": w.log, "update": describe(id, u)})
		}
		if pan != "" {
			report("panic:"+panicSite(pan), pan)
			return
		}
		if len(rec.Mutations) > 0 {
			report("call:"+rec.Mutations[0].Op+"-"+pathClass(rec.Mutations[0].Path), fmt.Sprintf("an update that changes nothing calls %s %s", rec.Mutations[0].Op, rec.Mutations[0].Path))
			return
		}
		if err != nil {
			report("denied"+errSummary(err), "an update that changes nothing fails: "+err.Error())
			return
		}
		if d := stampDiff(before, stamps(w.dir)); d != "" {
			report("changed", "an update that changes nothing changes the repository: "+d)
			return
		}
	}
}
