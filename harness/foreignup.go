package main

// Objects of other tools (zero-padded version numbers, other content directories, upper-case digests, inventories of
// older versions with another algorithm or missing, unknown extensions and fixity algorithms) which are updated by gocfl.

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
)

// foreignWorld is a storage root of another tool, opened for updates
func foreignWorld(r *Run, label string, i int) (*World, error) {
	rng := r.Rng(label, i)
	t, objs, paths, ver := foreignRootLong(rng, 1+rng.Intn(3), i%4 == 0)
	w := &World{r: r, rng: rng, cfg: &Cfg{Ver: ver, Digest: "sha512", Label: "foreign", Dedup: i%3 > 0}, objs: map[string]*MObj{}}
	w.tmp = filepath.Join(r.Scratch, fmt.Sprintf("%s%d", label, i))
	w.dir = filepath.Join(w.tmp, "root")
	os.MkdirAll(w.dir, 0755)
	if err := writeTree(w.dir, t); err != nil {
		panic(err)
	}
	folders := map[string]string{}
	for k, f := range objs {
		o := &MObj{ID: f.ID, Path: paths[k], Cfg: w.cfg, F: f}
		for n, v := range f.Vers {
			o.Versions = append(o.Versions, MVer{State: v.State, Msg: v.Msg, User: v.User, Addr: v.Addr, Name: f.vname(n)})
			m := &o.Versions[n]
			if !v.HasMsg {
				m.Msg = ""
			}
			if !v.HasUser {
				m.User, m.Addr = "", ""
			}
		}
		w.objs[f.ID] = o
		w.ids = append(w.ids, f.ID)
		folders[f.ID] = paths[k]
		w.log = append(w.log, fmt.Sprintf("object %q of another tool: OCFL %s, %d versions up to %s, features %v, head state %q", f.ID, f.Ver, len(f.Vers), f.vname(len(f.Vers)-1), f.Feat, first(sortedKeys(o.head()), 6)))
	}
	err := w.reload()
	if w.env != nil {
		w.env.Folders = folders
	}
	return w, err
}

// runForeign updates objects of other tools and calls mon after every step
func runForeign(r *Run, n int, mon func(w *World, s *StepRes), end func(w *World)) {
	r.Parallel(n, func(i int) {
		w, err := foreignWorld(r, "foreignup", i)
		defer w.done()
		if err != nil {
			w.violate("foreign-load:"+errSummary(err), "the storage root of another tool cannot be loaded: "+err.Error())
			return
		}
		done := 0
		for k := 1 + w.rng.Intn(5); k > 0 && !w.bad; k-- {
			id := pick(w.rng, w.ids)
			if i%4 == 0 && w.rng.Intn(3) > 0 {
				id = w.ids[0]
			}
			if w.rng.Intn(2) == 0 {
				if err := w.reload(); err != nil {
					w.violate("reload-error:"+errSummary(err), "the storage root cannot be loaded again: "+err.Error())
					return
				}
			}
			o := w.objs[id]
			exhausted := o.F.Pad > 0 && len(o.Versions)+1 >= int(math.Pow10(o.F.Pad-1))
			s := w.step(id, w.genUpd(id, histOpt))
			s.Rec.N = 0
			if exhausted {
				// there is no further name of this width
				r.Count("exhausted_version_numbers", 1)
				if s.Err == nil {
					w.violate("width", fmt.Sprintf("object %q has zero-padded version numbers of %d digits, which are exhausted; the update was not refused", id, o.F.Pad))
				}
				if s.Panic != "" {
					w.opFailed(s)
				}
				if d := diffTrees(s.Before, s.After); len(d) > 0 && !w.bad {
					w.violate("refused-changed", fmt.Sprintf("the refused update of %q altered the repository: %v", id, first(d, 5)))
				}
				break
			}
			if w.opFailed(s) {
				return
			}
			done++
			r.Count("updates_of_foreign_objects", 1)
			for _, f := range o.F.Feat {
				r.Count("foreign_"+f, 1)
			}
			mon(w, s)
		}
		if end != nil && !w.bad {
			end(w)
		}
		r.Case(fmt.Sprint("foreign", len(w.ids), done), done > 0)
	})
}
