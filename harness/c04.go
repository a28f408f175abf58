package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

func init() {
	register("C04", "exploration", "(a) every storage root after each completed update of random histories, (b) storage roots written by an independent OCFL writer with random feature combinations (zero padding, missing version inventories, other content directory, upper case, several content paths, logs, unknown extensions and fixity algorithms, digest and specification changes between versions); non-trivial when it holds at least one object; the validator must return without error and report no validation error", c04)
}

func normCode(v VErr) string { return v.Code }

func (r *Run) validClean(what, dir string, c *Cfg, replay any, w *World) bool {
	var errs []VErr
	err, p := Guard(func() error {
		var e error
		errs, _, e = validateDir(dir, c, nil)
		return e
	})
	report := func(key, msg string) {
		if w != nil {
			w.violate(key, msg)
		} else {
			r.Violate(key, msg, replay)
		}
	}
	r.Count("validator_runs", 1)
	switch {
	case p != "":
		report("panic:"+panicSite(p), what+": validator panicked: "+p)
	case err != nil:
		report("error:"+errSummary(err), fmt.Sprintf("%s: validator failed on a valid storage root: %v", what, err))
	case len(errs) > 0:
		report("alarm:"+normCode(errs[0])+":"+firstWords(errs[0].Text), fmt.Sprintf("%s: validator reports errors on a valid storage root: %v", what, first(verrStrings(errs), 4)))
	default:
		return true
	}
	return false
}

func firstWords(s string) string {
	f := strings.Fields(s)
	if len(f) > 3 {
		f = f[:3]
	}
	return strings.Join(f, " ")
}

func c04(r *Run) {
	runHistories(r, "h", r.N(700, 10000), histOpt, nil, func(w *World, s *StepRes) {
		r.validClean("after update", w.dir, w.cfg, nil, w)
	}, nil)
	runForeign(r, r.N(200, 3000), func(w *World, s *StepRes) {
		r.validClean("after update of an object of another tool", w.dir, w.cfg, nil, w)
	}, nil)
	n := r.N(2500, 40000)
	r.Parallel(n, func(i int) {
		rng := r.Rng("foreign", i)
		t, objs, paths, ver := foreignRoot(rng, 1+rng.Intn(3))
		var feats []string
		m := map[string]string{}
		for k, o := range objs {
			feats = append(feats, o.Feat...)
			m[paths[k]] = o.ID
		}
		if es := oracleRoot(t, m); len(es) > 0 {
			// the generator must only make valid roots; anything else is a fault of the harness
			panic(fmt.Sprintf("harness: generated root is not valid: %v", es))
		}
		dir := filepath.Join(r.Scratch, fmt.Sprintf("f%d", i))
		defer os.RemoveAll(dir)
		if err := writeTree(dir, t); err != nil {
			panic(err)
		}
		c := &Cfg{Ver: ver, Digest: "sha512"}
		r.validClean(fmt.Sprintf("foreign root %d %v", i, feats), dir, c, map[string]any{"features": feats, "seedcase": i, "tree": renderTree(t)}, nil)
		for _, f := range feats {
			r.Count("feature_"+f, 1)
		}
		r.Case(fmt.Sprint("foreign", i), len(objs) > 0)
	})
}

func renderTree(t Tree) map[string]string {
	m := map[string]string{}
	for k, v := range t {
		m[k] = clip(string(v), 3000)
	}
	return m
}
