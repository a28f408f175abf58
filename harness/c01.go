package main

import (
	"bytes"
	"fmt"
	"strings"
)

// runHistories executes n random histories and calls mon after every step.
func runHistories(r *Run, label string, n int, opt HistOpt, mkCfg func(w *Run, i int) *Cfg, mon func(w *World, s *StepRes), end func(w *World)) {
	r.Parallel(n, func(i int) {
		rng := r.Rng(label, i)
		var c *Cfg
		if mkCfg != nil {
			c = mkCfg(r, i)
		}
		if c == nil {
			c = genCfg(rng)
		}
		w, err := newWorld(r, rng, c, fmt.Sprintf("%s%d", label, i))
		defer w.done()
		if err != nil {
			w.violate("init-error:"+errSummary(err), "a legitimate storage root cannot be initialised: "+err.Error())
			return
		}
		nobj := 1 + rng.Intn(3)
		var ids []string
		for k := 0; k < nobj; k++ {
			ids = append(ids, w.newID(k))
		}
		steps := 2 + rng.Intn(6)
		if rng.Intn(14) == 0 {
			// long histories: two digit version numbers
			steps += 9
			ids = ids[:1]
		}
		opt := opt
		// a few histories are large: three digit version numbers, hundreds of files
		switch scale := r.Rng(label, i, "scale"); {
		case label != "h":
		case i == 0:
			steps, ids, opt.MaxTree = 102, ids[:1], 2
			r.Count("histories_with_more_than_100_updates", 1)
		case scale.Intn(60) == 0:
			w.bulk = 130 + scale.Intn(200)
			r.Count("histories_with_hundreds_of_files", 1)
		}
		for k := 0; k < steps && !w.bad; k++ {
			id := pick(rng, ids)
			if rng.Intn(2) == 0 {
				if err := w.reload(); err != nil {
					w.violate("reload-error:"+errSummary(err), "the storage root cannot be loaded again: "+err.Error())
					return
				}
			}
			u := w.genUpd(id, opt)
			s := w.step(id, u)
			r.Count("updates_executed", 1)
			r.Count("fs_calls_observed", s.Rec.N)
			s.Rec.N = 0
			if s.NewVersion != "" {
				r.Count("versions_created", 1)
			}
			if w.opFailed(s) {
				return
			}
			mon(w, s)
		}
		if end != nil && !w.bad {
			end(w)
		}
		r.Case(c.Label+fmt.Sprint(len(w.objs), steps), len(w.objs) > 0)
		r.Sample(map[string]any{"config": c.Label, "history": first(w.log, 4)})
	})
}

func init() {
	register("C01", "exploration", "random configuration x history of updates (folder/data/reader/delete/rename/echo/revert); non-trivial when at least one object was written; every version of every object is extracted and compared byte for byte with the model", c01)
}

func c01(r *Run) {
	r.Assume = []string{"source trees contain only regular files and directories", "logical paths are valid fs paths without conflicts between a file and a directory of the same name"}
	opt := HistOpt{Odd: true, Ops: true, Noop: true, Mixed: true}
	runHistories(r, "h", r.N(260, 4000), opt, nil, func(w *World, s *StepRes) {
		if w.rng.Intn(3) == 0 {
			w.checkExtractAll(s.ID)
		}
	}, func(w *World) {
		if w.rng.Intn(2) == 0 {
			w.reload()
		}
		for _, id := range w.ids {
			w.checkExtractAll(id)
		}
	})
	runForeign(r, r.N(120, 2000), func(w *World, s *StepRes) {
		if w.rng.Intn(3) == 0 {
			w.checkExtractAll(s.ID)
		}
	}, func(w *World) {
		for _, id := range w.ids {
			w.checkExtractAll(id)
		}
	})
}

func stateDiff(want, got map[string][]byte) []string {
	var d []string
	for _, k := range sortedKeys(want) {
		g, ok := got[k]
		if !ok {
			d = append(d, fmt.Sprintf("missing %q", k))
		} else if !bytes.Equal(g, want[k]) {
			d = append(d, fmt.Sprintf("wrong bytes %q (%d bytes %s, expected %d bytes %s)", k, len(g), digest("md5", g)[:6], len(want[k]), digest("md5", want[k])[:6]))
		}
	}
	for _, k := range sortedKeys(got) {
		if _, ok := want[k]; !ok {
			d = append(d, fmt.Sprintf("unexpected %q", k))
		}
	}
	return d
}

// checkExtractAll extracts every version of the object, whole and by area, and compares with the model.
func (w *World) checkExtractAll(id string) {
	o := w.objs[id]
	if o == nil {
		return
	}
	for vi, v := range o.Versions {
		if n := len(o.Versions); n > 30 && vi > 1 && vi < n-2 && w.rng.Intn(n) > 8 {
			// a sample of long histories
			continue
		}
		names := []string{v.Name}
		if vi == len(o.Versions)-1 {
			names = append(names, "latest", "")
		}
		for _, vn := range names {
			areas := []string{""}
			if w.cfg.Areas != nil {
				areas = append([]string{"full", ""}, sortedKeys(w.cfg.Areas)...)
			}
			for _, a := range areas {
				if a != "full" && a != "" && w.rng.Intn(3) != 0 {
					continue
				}
				want := map[string][]byte{}
				pre, _ := w.cfg.prefix(a)
				for l, b := range v.State {
					if pre == "" {
						want[l] = b
					} else if strings.HasPrefix(l, pre+"/") {
						want[l[len(pre)+1:]] = b
					}
				}
				dir := w.tmpDir()
				var got Tree
				err, p := Guard(func() error {
					var e error
					got, e = w.env.extract(id, vn, false, a, dir, nil)
					return e
				})
				if p != "" {
					w.violate("extract-panic:"+panicSite(p), fmt.Sprintf("extracting %s of %q panicked: %s", vn, id, p))
					return
				}
				if err != nil {
					w.violate("extract-error:"+errSummary(err), fmt.Sprintf("extracting version %q area %q of %q failed: %v", vn, a, id, err))
					return
				}
				gotF := got.files()
				for k := range gotF {
					l := k
					if pre != "" {
						l = pre + "/" + k
					}
					if w.cfg.derived(l) {
						delete(gotF, k)
					}
				}
				w.r.Count("versions_extracted", 1)
				w.r.Count("files_compared", len(want))
				if d := stateDiff(want, gotF); len(d) > 0 {
					w.violate("extract-differs", fmt.Sprintf("version %q area %q of %q extracts differently from what was ingested: %v", vn, a, id, first(d, 8)))
					return
				}
			}
		}
	}
}
