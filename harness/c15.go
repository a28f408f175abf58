package main

// Extraction: complete and correct, or an error.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/je4/filesystem/v3/pkg/osfsrw"
)

func init() {
	register("C15", "exploration", "valid storage roots of gocfl histories and of the independent writer; versions extracted by identifier, folder and object, with and without manifest, into empty and used targets, with short reads, with single failing calls of repository and target, after single alterations of content files and after re-signed inventories with exchanged content, and with unknown versions, objects and areas; a reported success is compared byte for byte with the state resolved independently from the unaltered root; non-trivial when a fault was hit, content altered or files extracted", c15)
}

// resolveVersion lists the files of a version from the inventory, independently of gocfl
func resolveVersion(t Tree, obj, ver string) (map[string][]byte, *jinv, error) {
	inv, err := readInv(t[obj+"/inventory.json"])
	if err != nil {
		return nil, nil, err
	}
	st := map[string][]byte{}
	for l, d := range inv.logical(ver) {
		ok := false
		for md, ps := range inv.Manifest {
			if strings.EqualFold(md, d) && len(ps) > 0 {
				b, is := t[obj+"/"+ps[0]]
				if !is {
					return nil, nil, fmt.Errorf("content %s is not there", ps[0])
				}
				st[l], ok = b, true
			}
		}
		if !ok {
			return nil, nil, fmt.Errorf("%q cannot be resolved", l)
		}
	}
	return st, inv, nil
}

// areaFiles reduces a state to the files of an area
func (c *Cfg) areaFiles(st map[string][]byte, area string) map[string][]byte {
	res := map[string][]byte{}
	pre, _ := c.prefix(area)
	for l, b := range st {
		if pre == "" {
			res[l] = b
		} else if strings.HasPrefix(l, pre+"/") {
			res[l[len(pre)+1:]] = b
		}
	}
	return res
}

// xcase is an extraction
type xcase struct {
	v           *vroot
	obj, id     string
	ver, area   string
	man         bool
	mode        int // 0 id, 1 folder, 2 object, 3 all objects of the root
	used, short bool
	want        map[string][]byte
	alg         string
	dir         string
	subs        []*xcase
}

func (x *xcase) String() string {
	return fmt.Sprintf("object %q (%s) version %q area %q manifest %v mode %d used target %v short reads %v", x.id, x.obj, x.ver, x.area, x.man, x.mode, x.used, x.short)
}

func (x *xcase) run(p *plan) (rec *Rec, got Tree, err error, pan string) {
	rec = NewRec()
	rec.ShortRead = x.short
	if p == nil {
		rec.Keep = true
	} else {
		p.arm(rec)
	}
	os.RemoveAll(x.dir)
	os.MkdirAll(x.dir, 0755)
	defer os.RemoveAll(x.dir)
	if x.used {
		t := Tree{}
		for l, b := range x.want {
			if x.mode == 3 {
				l = x.obj + "/" + l
			}
			t[l] = append(append([]byte("old "), b...), " old"...)
		}
		if e := writeTree(x.dir, t); e != nil {
			return rec, nil, fmt.Errorf("harness: %w", e), ""
		}
	}
	err, pan = Guard(func() error {
		e, err := openRoot(x.v.dir, x.v.cfg, rec)
		if err != nil {
			return err
		}
		t, err := osfsrw.NewFS(x.dir, nopLogger())
		if err != nil {
			return fmt.Errorf("harness: %w", err)
		}
		dst := NewXFS(t, rec)
		dst.prefix = dstPrefix
		switch x.mode {
		case 0:
			return e.SR.Extract(dst, "", x.id, x.ver, x.man, x.area)
		case 1:
			return e.SR.Extract(dst, x.obj, "", x.ver, x.man, x.area)
		case 3:
			return e.SR.Extract(dst, "", "", x.ver, x.man, x.area)
		}
		o, err := e.SR.LoadObjectByFolder(x.obj)
		if err != nil {
			return err
		}
		return o.Extract(dst, x.ver, x.man, x.area)
	})
	got = readTree(x.dir)
	return
}

// wrong compares what was extracted with what should be there
func (x *xcase) wrong(got Tree) []string {
	g := got.files()
	var bad []string
	if x.mode == 3 {
		for _, s := range x.subs {
			bad = append(bad, s.wrong(got.sub(s.obj))...)
			for p := range g {
				if strings.HasPrefix(p, s.obj+"/") {
					delete(g, p)
				}
			}
		}
		for p := range g {
			bad = append(bad, fmt.Sprintf("%q does not belong to any object", p))
		}
		return bad
	}
	if x.man {
		name := "manifest." + x.alg
		b, ok := g[name]
		if !ok {
			return []string{"manifest " + name + " is missing"}
		}
		delete(g, name)
		seen := map[string]bool{}
		for _, l := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
			if l == "" {
				continue
			}
			d, p, ok := strings.Cut(l, " ")
			p = strings.TrimPrefix(strings.TrimLeft(p, " "), "*")
			c, is := x.want[p]
			switch {
			case !ok || strings.ContainsAny(p, "\n\r"):
				bad = append(bad, fmt.Sprintf("manifest line %q", l))
			case !is:
				bad = append(bad, fmt.Sprintf("manifest lists %q which does not belong to the version", p))
			case seen[p]:
				bad = append(bad, fmt.Sprintf("manifest lists %q twice", p))
			case !strings.EqualFold(d, digest(x.alg, c)):
				bad = append(bad, fmt.Sprintf("manifest digest of %q is wrong", p))
			}
			seen[p] = true
		}
		for p := range x.want {
			if !seen[p] {
				bad = append(bad, fmt.Sprintf("manifest does not list %q", p))
			}
		}
	}
	return append(bad, stateDiff(x.want, g)...)
}

// manifestable: the names can be listed in a manifest without ambiguity
func (x *xcase) manifestable() bool {
	for p := range x.want {
		if strings.ContainsAny(p, "\n\r") || strings.HasPrefix(p, " ") || strings.HasPrefix(p, "*") || p == "manifest."+x.alg || strings.HasPrefix(p, "manifest."+x.alg+"/") {
			return false
		}
	}
	return true
}

func c15(r *Run) {
	r.Assume = []string{"names with line breaks or leading blanks make manifest lines ambiguous and are not combined with a manifest"}
	per := r.N(24, 0)
	one := func(rng *rand.Rand, v *vroot) {
		for k := 0; k < 2; k++ {
			if !c15root(r, rng, v, per) {
				return
			}
		}
	}
	validRoots(r, "x", r.N(180, 900), r.N(300, 1500), one)
	// objects with metadata extensions
	runHistories(r, "xr", r.N(24, 150), HistOpt{Odd: true, Ops: true, Mixed: true}, func(r *Run, i int) *Cfg {
		d := filepath.Join(r.Scratch, fmt.Sprintf("m%d", i))
		os.MkdirAll(d, 0755)
		return richCfg(r.Rng("rich", i), d)
	}, func(w *World, s *StepRes) {}, func(w *World) {
		t := readTree(w.dir)
		v := &vroot{dir: w.dir, t: t, cfg: w.cfg, feat: w.cfg.Label}
		for _, ps := range findObjects(t) {
			v.objs = append(v.objs, ps...)
		}
		sortStrings(v.objs)
		if len(v.objs) > 0 {
			one(w.rng, v)
		}
	})
}

func (x *xcase) fail(r *Run, key, msg string) {
	r.Violate(key, msg+"\n    "+x.String()+"\n    root: "+x.v.feat, map[string]any{"case": x.String(), "root": x.v.feat, "config": x.v.cfg})
}

func c15root(r *Run, rng *rand.Rand, v *vroot, per int) bool {
	x := &xcase{v: v, obj: pick(rng, v.objs), dir: v.dir + fmt.Sprintf("-x%d", rng.Intn(1<<30))}
	inv, err := readInv(v.t[x.obj+"/inventory.json"])
	if err != nil {
		return true
	}
	x.id, x.alg = inv.ID, inv.Digest
	x.ver = pick(rng, sortedKeys(inv.Versions))
	st, _, err := resolveVersion(v.t, x.obj, x.ver)
	if err != nil {
		return true
	}
	areas := []string{""}
	if v.cfg.Areas != nil {
		areas = append([]string{"full", "full", ""}, sortedKeys(v.cfg.Areas)...)
	} else {
		areas = append(areas, "full", "content")
	}
	x.area = pick(rng, areas)
	x.want = v.cfg.areaFiles(st, x.area)
	x.man = rng.Intn(2) == 0
	if !x.manifestable() {
		x.man = false
	}
	x.used, x.short = rng.Intn(3) == 0, rng.Intn(3) == 0
	x.mode = rng.Intn(3)
	if strings.HasPrefix(v.feat, "foreign") && x.mode == 0 {
		x.mode = 1 // the independent writer declares no layout
	}
	if rng.Intn(4) == 0 {
		// everything
		x.mode, x.ver = 3, pick(rng, []string{"latest", ""})
		for _, o := range v.objs {
			inv, err := readInv(v.t[o+"/inventory.json"])
			if err != nil {
				return true
			}
			st, _, err := resolveVersion(v.t, o, inv.Head)
			if err != nil {
				return true
			}
			sub := &xcase{v: v, obj: o, id: inv.ID, alg: inv.Digest, area: x.area, want: v.cfg.areaFiles(st, x.area)}
			if !sub.manifestable() {
				x.man = false
			}
			x.subs = append(x.subs, sub)
			if o == x.obj {
				x.want = sub.want
			}
		}
		for _, s := range x.subs {
			s.man = x.man
		}
	} else if x.ver == inv.Head && rng.Intn(2) == 0 {
		x.ver = pick(rng, []string{"latest", ""})
	}
	// undisturbed
	rec, got, err, pan := x.run(nil)
	r.Case(fmt.Sprint("plain", x.mode, x.man, x.used, x.short, x.area, v.feat), len(x.want) > 0)
	r.Count("extractions", 1)
	r.Count("files_compared", len(x.want))
	r.Count("fs_calls_observed", rec.N)
	if pan != "" || err != nil {
		x.fail(r, "plain-error:"+errSummary(err), fmt.Sprintf("an extraction failed: %v %s", err, pan))
		return false
	}
	if bad := x.wrong(got); len(bad) > 0 {
		x.fail(r, "plain-differs", fmt.Sprintf("an extraction reported success but the result is wrong: %v", first(bad, 6)))
		return false
	}
	// unknown version, object, area
	for _, ver := range []string{"v99", "v0", "1", "V1", "v", inv.Head + " ", "v0" + strings.TrimPrefix(inv.Head, "v"), "-1", "latest1"} {
		if _, ok := inv.Versions[ver]; ok || rng.Intn(3) != 0 {
			continue
		}
		y := *x
		y.ver = ver
		_, _, err, pan := y.run(nil)
		r.Case("unknown version"+ver+v.feat, true)
		r.Count("unknown_versions", 1)
		if err == nil || pan != "" {
			y.fail(r, "unknown-version", fmt.Sprintf("extracting a version that does not exist: no error %s", pan))
			return false
		}
	}
	for _, ob := range []string{"nothing here", x.obj + "x", x.obj + "/" + inv.Head, x.id + "-"} {
		if x.mode == 3 {
			break
		}
		y := *x
		y.obj, y.id = ob, ob
		known := false
		for _, o := range v.objs {
			if i, err := readInv(v.t[o+"/inventory.json"]); o == ob || err == nil && i.ID == ob {
				known = true
			}
		}
		// identifiers the layout cannot distinguish or maps to an object
		if known || y.mode == 0 && len(findObjects(v.t)) > 0 && v.cfg.Layout != "0002-flat-direct-storage-layout" && v.cfg.Layout != "0004-hashed-n-tuple-storage-layout" {
			continue
		}
		_, _, err, pan := y.run(nil)
		r.Case("unknown object"+v.feat, true)
		r.Count("unknown_objects", 1)
		if err == nil || pan != "" {
			y.fail(r, "unknown-object", fmt.Sprintf("extracting an object that does not exist: no error %s", pan))
			return false
		}
	}
	// failing calls
	if !x.short {
		for _, p := range (&World{rng: rng}).choose(plansOf(rec.Events, false), per) {
			rec, got, err, pan := x.run(&p)
			r.Case(p.class()+v.feat, rec.FaultHit)
			if !rec.FaultHit {
				continue
			}
			r.Count("faults_hit", 1)
			r.Count("hit_"+p.Op, 1)
			if pan != "" {
				x.fail(r, "fault-panic:"+panicSite(pan), "an extraction with a failing call panicked: "+p.String()+" "+pan)
				return false
			}
			if err != nil {
				r.Count("faults_reported", 1)
				continue
			}
			strict := p.Op == "create" || p.Op == "write" || p.Op == "closew"
			if bad := x.wrong(got); strict || len(bad) > 0 {
				x.fail(r, "fault-unreported:"+p.key(), fmt.Sprintf("an extraction reported success although a call failed (%v): %v", p, first(bad, 6)))
				return false
			}
		}
	}
	// altered content
	x.used = false
	for k := 0; k < 10; k++ {
		a := x.alterContent(rng, inv)
		if a == nil {
			break
		}
		undo := v.apply(a)
		_, got, err, pan := x.run(nil)
		undo()
		r.Case("altered "+a.class+v.feat, true)
		r.Count("altered_"+a.class, 1)
		if pan != "" {
			x.fail(r, "altered-panic:"+panicSite(pan), "an extraction from altered content panicked: "+pan)
			return false
		}
		if err != nil {
			r.Count("alterations_reported", 1)
			continue
		}
		if bad := x.wrong(got); len(bad) > 0 {
			x.fail(r, "altered-unreported:"+a.class, fmt.Sprintf("after an alteration (%s) the extraction reported success with a wrong result: %v", a.desc, first(bad, 6)))
			return false
		}
		r.Count("alterations_irrelevant", 1)
	}
	return true
}

// alterContent damages content files of the object, or exchanges content in a re-signed inventory
func (x *xcase) alterContent(rng *rand.Rand, inv *jinv) *alter {
	t := x.v.t
	var files, used []string
	wanted := map[string]bool{}
	for _, d := range inv.logical(func() string {
		if x.ver == "latest" || x.ver == "" {
			return inv.Head
		}
		return x.ver
	}()) {
		wanted[strings.ToLower(d)] = true
	}
	for _, d := range sortedKeys(inv.Manifest) {
		files = append(files, inv.Manifest[d]...)
		if wanted[strings.ToLower(d)] {
			used = append(used, inv.Manifest[d]...)
		}
	}
	if len(files) == 0 {
		return nil
	}
	if len(used) > 0 && rng.Intn(4) != 0 {
		files = used
	}
	f := pick(rng, files)
	p := x.obj + "/" + f
	b := t[p]
	a := &alter{set: map[string][]byte{}, desc: f}
	switch rng.Intn(8) {
	case 0:
		if len(b) == 0 {
			a.class, a.set[p] = "append", []byte("x")
		} else {
			a.class, a.set[p] = "flip", flipByte(rng, b)
		}
	case 1:
		a.class, a.set[p] = "append", append(bytes.Clone(b), pick(rng, []string{"\n", "x", "\x00"})...)
	case 2:
		if len(b) == 0 {
			return x.alterContent(rng, inv)
		}
		a.class, a.set[p] = "truncate", b[:rng.Intn(len(b))]
	case 3:
		a.class, a.set[p] = "remove", nil
	case 4:
		a.class = "directory"
		a.set[p+"/"] = nil
	case 5:
		q := x.obj + "/" + pick(rng, files)
		if bytes.Equal(t[q], b) {
			a.class, a.set[p] = "replace", []byte("something else")
		} else {
			a.class, a.set[p], a.set[q] = "swap", t[q], b
		}
	case 6, 7:
		// exchanged content in the inventory
		var m map[string]any
		if json.Unmarshal(t[x.obj+"/inventory.json"], &m) != nil {
			return nil
		}
		mf, _ := m["manifest"].(map[string]any)
		ks := sortedKeys(mf)
		if len(ks) < 2 {
			a.class, a.set[p] = "append", append(bytes.Clone(b), 'x')
			return a
		}
		i := rng.Intn(len(ks))
		j := (i + 1 + rng.Intn(len(ks)-1)) % len(ks)
		mf[ks[i]], mf[ks[j]] = mf[ks[j]], mf[ks[i]]
		a.class = "manifest"
		a.desc = "manifest entries of " + ks[i] + " and " + ks[j] + " exchanged"
		resign(a.set, t, x.obj, "", jsonBytes(m), x.alg)
	}
	return a
}
