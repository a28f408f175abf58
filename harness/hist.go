package main

// Monitors over random histories: C02, C03, C04 (own objects), C10, C12, C13, C14, C24.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"regexp"
	"strings"
	"time"
)

var reVerDir = regexp.MustCompile(`^v[0-9]+$`)

// jinv is a plain reading of inventory.json
type jinv struct {
	ID       string                         `json:"id"`
	Digest   string                         `json:"digestAlgorithm"`
	Head     string                         `json:"head"`
	CD       string                         `json:"contentDirectory"`
	Manifest map[string][]string            `json:"manifest"`
	Fixity   map[string]map[string][]string `json:"fixity"`
	Versions map[string]struct {
		Created string              `json:"created"`
		Message *string             `json:"message"`
		State   map[string][]string `json:"state"`
		User    *struct {
			Name    string `json:"name"`
			Address string `json:"address"`
		} `json:"user"`
	} `json:"versions"`
}

func readInv(b []byte) (*jinv, error) {
	i := &jinv{}
	if err := json.Unmarshal(b, i); err != nil {
		return nil, err
	}
	return i, nil
}

func (i *jinv) logical(ver string) map[string]string {
	m := map[string]string{}
	for d, ps := range i.Versions[ver].State {
		for _, p := range ps {
			m[p] = strings.ToLower(d)
		}
	}
	return m
}

func (i *jinv) verJSON(ver string) string {
	v := i.Versions[ver]
	b, _ := json.Marshal(map[string]any{"c": v.Created, "m": v.Message, "u": v.User, "s": i.logical(ver)})
	return string(b)
}

func init() {
	register("C02", "exploration", "random configuration x history of updates, extractions, validations and metadata runs over several objects; non-trivial when at least one object was written; after every step each file of every previously committed version is compared byte for byte, and what every inventory says about older versions is compared with what it said before", c02)
	register("C03", "exploration", "random configuration x history; non-trivial when at least one object was written; after initialisation and after every update the whole storage root is checked by an OCFL validator written from the specification", c03)
	register("C10", "exploration", "random histories over several objects, incl. creation at occupied locations and colliding identifiers; non-trivial when at least one object was written; whole-root snapshots are compared around every step and enumeration/loading is compared with the model", c10)
	register("C12", "exploration", "random histories with repeated, moved and reverted content and unchanged input; non-trivial when at least one object was written; whole-root snapshots before/after and the manifest decide whether content was stored again", c12)
	register("C13", "exploration", "random histories of folder/data/reader/delete/rename operations in contribute and echo mode over several areas; non-trivial when at least one object was written; the state recorded for the head version is compared with a model after every update", c13)
	register("C14", "exploration", "random contents x digest x fixity algorithm combinations; non-trivial when at least one object was written; every digest in every inventory, sidecar and metadata report is recomputed with independent hash code", c14)
	register("C24", "exploration", "random histories with odd message, user and address strings; non-trivial when at least one object was written; version number, head, message, user, address and creation time are compared with what was given", c24)
}

// ---- C02 ------------------------------------------------------------------

func (w *World) monImmutable(before, after Tree, what, changedObj string) {
	for _, o := range w.objs {
		bt, at := before.sub(o.Path), after.sub(o.Path)
		inv, err := readInv(bt["inventory.json"])
		if err != nil {
			continue
		}
		for _, p := range sortedKeys(bt) {
			top, _, _ := strings.Cut(p, "/")
			if inv.Versions[top].State == nil {
				continue
			}
			b, ok := at[p]
			if !ok {
				w.violate("removed-from-version", fmt.Sprintf("%s: %s of committed version %s of %q is gone", what, p, top, o.ID))
			} else if !bytes.Equal(b, bt[p]) {
				w.violate("changed-in-version", fmt.Sprintf("%s: %s of committed version %s of %q was changed (%d -> %d bytes)", what, p, top, o.ID, len(bt[p]), len(b)))
			}
			w.r.Count("committed_files_compared", 1)
		}
		ainv, err := readInv(at["inventory.json"])
		if err != nil {
			w.violate("inventory-lost", fmt.Sprintf("%s: inventory of %q is unreadable: %v", what, o.ID, err))
			continue
		}
		for v := range inv.Versions {
			if inv.verJSON(v) != ainv.verJSON(v) {
				w.violate("history-rewritten", fmt.Sprintf("%s: the inventory of %q describes version %s differently than before: %s -> %s", what, o.ID, v, clip(inv.verJSON(v), 400), clip(ainv.verJSON(v), 400)))
			}
			w.r.Count("version_records_compared", 1)
		}
		for d, ps := range inv.Manifest {
			have := map[string]bool{}
			for _, p := range ainv.Manifest[d] {
				have[p] = true
			}
			if o.F != nil {
				for x, ps := range ainv.Manifest {
					if strings.EqualFold(x, d) {
						for _, p := range ps {
							have[p] = true
						}
					}
				}
			}
			for _, p := range ps {
				if !have[p] {
					w.violate("manifest-entry-lost", fmt.Sprintf("%s: content %s of %q is no longer listed", what, p, o.ID))
				}
			}
		}
		// new files only in new version directories, or inventory and extensions of the object root
		for p := range at {
			if _, ok := bt[p]; ok {
				continue
			}
			top, _, _ := strings.Cut(p, "/")
			if inv.Versions[top].State != nil {
				w.violate("added-to-version", fmt.Sprintf("%s: %s was added to committed version %s of %q", what, p, top, o.ID))
			}
			if reVerDir.MatchString(top) && ainv.Head != top {
				w.violate("outside-new-version", fmt.Sprintf("%s: %s written although the new version of %q is %s", what, p, o.ID, ainv.Head))
			}
		}
	}
}

// monOutside: what another tool keeps in the object outside of its versions stays as it is
func (w *World) monOutside(s *StepRes) {
	inv, err := readInv(s.After[s.Obj.Path+"/inventory.json"])
	if err != nil {
		return
	}
	for _, d := range diffTrees(s.Before.sub(s.Obj.Path), s.After.sub(s.Obj.Path)) {
		f := diffParts(d)
		if top, _, _ := strings.Cut(f[1], "/"); f[0] == "added" || f[1] == "inventory.json" || f[1] == "inventory.json."+inv.Digest || top == inv.Head {
			continue
		}
		w.violate("outside-versions", fmt.Sprintf("update of %q: %s", s.ID, d))
	}
}

// readOps runs reading operations on the storage root
func (w *World) readOps() []string {
	var did []string
	id := ""
	if len(w.ids) > 0 {
		id = pick(w.rng, w.ids)
	}
	for n := 1 + w.rng.Intn(3); n > 0; n-- {
		k := w.rng.Intn(5)
		var err error
		var p string
		switch k {
		case 0:
			did = append(did, "validate")
			err, p = Guard(func() error { _, _, e := validateDir(w.dir, w.cfg, nil); return e })
		case 1:
			did = append(did, "extract")
			if id != "" {
				err, p = Guard(func() error {
					_, e := w.env.extract(id, "latest", w.rng.Intn(2) == 0, "full", w.tmpDir(), nil)
					return e
				})
			}
		case 2:
			did = append(did, "extractmeta")
			err, p = Guard(func() error { _, e := w.env.SR.ExtractMeta("", id); return e })
		case 3:
			did = append(did, "stat")
			err, p = Guard(func() error { return w.env.SR.Stat(&bytes.Buffer{}, "", id, nil) })
		case 4:
			did = append(did, "reload")
			err = w.reload()
		}
		if p != "" {
			w.violate("read-panic:"+panicSite(p), did[len(did)-1]+" panicked: "+p)
		} else if err != nil {
			w.violate("read-error:"+did[len(did)-1]+":"+errSummary(err), did[len(did)-1]+" failed: "+err.Error())
		}
	}
	w.log = append(w.log, "read: "+strings.Join(did, ","))
	return did
}

var histOpt = HistOpt{Odd: true, Ops: true, Noop: true, Mixed: true}

func c02(r *Run) {
	runHistories(r, "h", r.N(1000, 16000), histOpt, nil, func(w *World, s *StepRes) {
		w.monImmutable(s.Before, s.After, "update", s.ID)
		if w.rng.Intn(3) == 0 && !w.bad {
			did := w.readOps()
			after := readTree(w.dir)
			w.monImmutable(s.After, after, strings.Join(did, ","), "")
		}
	}, nil)
	runForeign(r, r.N(300, 4000), func(w *World, s *StepRes) {
		w.monImmutable(s.Before, s.After, "update", s.ID)
		w.monOutside(s)
	}, nil)
}

// ---- C03 ------------------------------------------------------------------

func (w *World) monConforming(t Tree) { w.monConformingObjs(t, w.objs) }

func (w *World) monConformingObjs(t Tree, mobjs map[string]*MObj) {
	objs := map[string]string{}
	for _, o := range mobjs {
		objs[o.Path] = o.ID
	}
	w.r.Count("roots_validated", 1)
	w.r.Count("objects_validated", len(objs))
	for _, e := range oracleRoot(t, objs) {
		code, _, _ := strings.Cut(e, " ")
		w.violate("nonconforming:"+code, "what was written does not conform to OCFL: "+e)
	}
	for _, o := range mobjs {
		want := "0=ocfl_object_" + string(w.cfg.objver())
		if o.F != nil {
			want = "0=ocfl_object_" + o.F.Ver
		}
		if _, ok := t[o.Path+"/"+want]; !ok {
			w.violate("object-version", fmt.Sprintf("object %q does not declare OCFL version %s", o.ID, w.cfg.objver()))
		}
	}
	if _, ok := t["0=ocfl_"+w.cfg.Ver]; !ok {
		w.violate("root-version", "the storage root does not declare OCFL version "+w.cfg.Ver)
	}
	if w.env != nil && w.env.Folders != nil {
		return
	}
	var lay struct{ Extension string }
	if b, ok := t["ocfl_layout.json"]; !ok {
		w.violate("no-layout", "no ocfl_layout.json although the layout "+w.cfg.LayoutSpec.Name+" is in use")
	} else if json.Unmarshal(b, &lay) != nil || lay.Extension != w.cfg.LayoutSpec.Name {
		w.violate("layout-name", fmt.Sprintf("ocfl_layout.json names %q but the layout in use is %q", lay.Extension, w.cfg.LayoutSpec.Name))
	}
}

func c03(r *Run) {
	runHistories(r, "h", r.N(1000, 16000), histOpt, nil, func(w *World, s *StepRes) {
		if s.Rec != nil && len(w.log) == 2 {
			w.monConformingObjs(s.Before, nil)
		}
		w.monConforming(s.After)
	}, func(w *World) { w.laterObject() })
	runForeign(r, r.N(300, 4000), func(w *World, s *StepRes) { w.monConforming(s.After) }, nil)
}

// laterObject tries to create an object of a later OCFL version than that of the storage root
func (w *World) laterObject() {
	if w.cfg.Ver != "1.0" || w.rng.Intn(4) != 0 {
		return
	}
	before := readTree(w.dir)
	err, p := Guard(func() error {
		mgr, e := w.env.objManager()
		if e != nil {
			return e
		}
		ob, e := w.env.SR.CreateObject("urn:later", "1.1", w.cfg.dig(), w.cfg.fix(), mgr)
		if e != nil {
			return e
		}
		return w.env.updateObject(ob, &Upd{Msg: "m", User: "u", Addr: "a:b", Ops: []Op{{Kind: "data", Path: "later.txt", Data: []byte("later")}}})
	})
	w.log = append(w.log, fmt.Sprintf("create object of OCFL 1.1 -> %v", err))
	if p != "" {
		w.violate("later-version-panic:"+panicSite(p), "creating an object of OCFL 1.1 in a storage root of OCFL 1.0 panicked: "+p)
		return
	}
	w.r.Count("later_object_versions_tried", 1)
	if d := diffTrees(before, readTree(w.dir)); err == nil || len(d) > 0 {
		w.violate("later-version", fmt.Sprintf("creating an object of OCFL 1.1 in a storage root of OCFL 1.0 is not refused: %v, changes %v", err, first(d, 3)))
	}
}

// ---- C10 ------------------------------------------------------------------

func (w *World) monIsolation(s *StepRes) {
	for _, d := range diffTrees(s.Before, s.After) {
		f := diffParts(d)
		p := f[1]
		q := strings.TrimSuffix(p, "/")
		if s.Obj.Path != "" && (q == s.Obj.Path || strings.HasPrefix(q, s.Obj.Path+"/")) {
			continue
		}
		if s.NewObj && strings.HasPrefix(s.Obj.Path, q+"/") && f[0] == "added" {
			continue
		}
		// the extension configuration of the storage root may be stored again, unchanged in content
		w.violate("foreign-change", fmt.Sprintf("update of %q (in %s): %s", s.ID, s.Obj.Path, d))
	}
	w.monEnumerate()
}

func (w *World) monEnumerate() {
	var folders []string
	err, p := Guard(func() error {
		var e error
		folders, e = w.env.SR.GetObjectFolders()
		return e
	})
	if p != "" || err != nil {
		w.violate("enumerate-error", fmt.Sprintf("enumeration failed: %v %s", err, p))
		return
	}
	have := map[string]int{}
	for _, f := range folders {
		have[strings.TrimPrefix(f, "./")]++
	}
	for _, o := range w.objs {
		if have[o.Path] != 1 {
			w.violate("enumerate-missing", fmt.Sprintf("object %q at %s is enumerated %d times: %v", o.ID, o.Path, have[o.Path], folders))
		}
		delete(have, o.Path)
		if o.F != nil {
			// no layout tells where it is
			continue
		}
		err, p := Guard(func() error {
			ob, e := w.env.SR.LoadObjectByID(o.ID)
			if e == nil && ob.GetID() != o.ID {
				e = fmt.Errorf("loaded object has id %q", ob.GetID())
			}
			return e
		})
		if err != nil || p != "" {
			w.violate("load-by-id", fmt.Sprintf("object %q cannot be loaded by its identifier: %v %s", o.ID, err, p))
		}
		ex, err := w.env.SR.ObjectExists(o.ID)
		if err != nil || !ex {
			w.violate("exists", fmt.Sprintf("ObjectExists(%q) = %v, %v", o.ID, ex, err))
		}
		w.r.Count("objects_loaded_by_id", 1)
	}
	for f := range have {
		w.violate("enumerate-extra", fmt.Sprintf("enumeration lists %q which was never created", f))
	}
}

// collide tries to create an object whose location is occupied
func (w *World) collide() {
	if len(w.ids) == 0 {
		return
	}
	id := pick(w.rng, w.ids)
	cands := []string{id}
	switch w.cfg.Layout {
	case "0006", "0007":
		for _, pre := range []string{"other:urn:", "zz:urn:edu/urn:"} {
			cands = append(cands, pre+id[strings.LastIndex(id, "obj"):])
		}
	case "direct-clean":
		cands = append(cands, strings.ReplaceAll(id, ":", "?"), strings.ReplaceAll(id, ":", "*"), id+" ", id+"/")
	case "pairtree":
		cands = append(cands, "info:"+id)
	case "pathdirect", "0002":
		cands = append(cands, id+"/sub", id+"/v1", id+"/v1/content", id+"/extensions/x", "extensions", "extensions/y", ".", "")
	}
	if w.rng.Intn(3) == 0 {
		cands = cands[:1]
	}
	id2 := pick(w.rng, cands)
	before := readTree(w.dir)
	var existed bool
	if _, ok := w.objs[id2]; ok {
		existed = true
	}
	err, p := Guard(func() error {
		mgr, e := w.env.objManager()
		if e != nil {
			return e
		}
		ob, e := w.env.SR.CreateObject(id2, w.cfg.objver(), w.cfg.dig(), w.cfg.fix(), mgr)
		if e != nil {
			return e
		}
		return w.env.updateObject(ob, &Upd{Msg: "m", User: "u", Addr: "a:b", Ops: []Op{{Kind: "data", Path: "intruder.txt", Data: []byte("intruder")}}})
	})
	after := readTree(w.dir)
	w.log = append(w.log, fmt.Sprintf("create %q -> %v", id2, err))
	if p != "" {
		w.violate("create-panic:"+panicSite(p), fmt.Sprintf("creating %q panicked: %s", id2, p))
		return
	}
	d := diffTrees(before, after)
	w.r.Count("occupied_creations_tried", 1)
	if err != nil {
		w.r.Count("creations_refused", 1)
		if len(d) > 0 {
			w.violate("refused-but-changed", fmt.Sprintf("refused creation of %q changed the storage root: %v", id2, first(d, 6)))
		}
		return
	}
	if existed {
		w.violate("created-twice", fmt.Sprintf("object %q was created although it exists", id2))
		return
	}
	for _, x := range d {
		f := diffParts(x)
		if f[0] != "added" {
			w.violate("foreign-change", fmt.Sprintf("creation of %q: %s", id2, x))
			continue
		}
		for _, o := range w.objs {
			if strings.HasPrefix(f[1], o.Path+"/") {
				w.violate("foreign-change", fmt.Sprintf("creation of %q inside object %q: %s", id2, o.ID, x))
			}
		}
	}
	ps := findObjects(after)[id2]
	if len(ps) != 1 {
		w.violate("not-created", fmt.Sprintf("object %q was created without error but is found at %v", id2, ps))
		return
	}
	o := &MObj{ID: id2, Path: ps[0], Cfg: w.cfg}
	o.Versions = append(o.Versions, MVer{State: map[string][]byte{w.cfg.logical("", "intruder.txt"): []byte("intruder")}, Msg: "m", User: "u", Addr: "a:b", Name: "v1"})
	w.objs[id2] = o
	w.ids = append(w.ids, id2)
}

func c10(r *Run) {
	runHistories(r, "h", r.N(1000, 16000), histOpt, nil, func(w *World, s *StepRes) {
		w.monIsolation(s)
		if w.rng.Intn(2) == 0 && !w.bad {
			w.collide()
			if !w.bad {
				w.monEnumerate()
			}
		}
	}, nil)
	runForeign(r, r.N(200, 3000), func(w *World, s *StepRes) { w.monIsolation(s) }, nil)
}

// ---- C12 ------------------------------------------------------------------

func (w *World) monDedup(s *StepRes) {
	bt, at := s.Before.sub(s.Obj.Path), s.After.sub(s.Obj.Path)
	if s.NewObj {
		bt = Tree{}
	}
	inv, err := readInv(at["inventory.json"])
	if err != nil {
		w.violate("no-inventory", err.Error())
		return
	}
	cd := inv.CD
	if cd == "" {
		cd = "content"
	}
	if !s.Changed {
		d := diffTrees(s.Before, s.After)
		if s.Upd.Dedup && onlyFolders(s.Upd) && !w.dropsReadme(s.Upd) {
			w.r.Count("unchanged_inputs", 1)
			if len(d) > 0 {
				w.violate("noop-changed", fmt.Sprintf("an update without any change altered the repository: %v", first(d, 8)))
			}
			return
		}
	}
	// content of the new version
	known := map[string]string{}
	for p, b := range bt {
		top, rest, _ := strings.Cut(p, "/")
		if reVerDir.MatchString(top) && strings.HasPrefix(rest, cd+"/") && !strings.HasSuffix(p, "/") {
			known[digest("sha256", b)] = p
		}
	}
	newFiles := map[string]string{}
	for _, p := range sortedKeys(at) {
		top, rest, _ := strings.Cut(p, "/")
		if _, ok := bt[p]; ok || !reVerDir.MatchString(top) || !strings.HasPrefix(rest, cd+"/") || strings.HasSuffix(p, "/") {
			continue
		}
		w.r.Count("content_files_written", 1)
		dg := digest("sha256", at[p])
		if s.Upd.Dedup && dupChecked(s.Upd) && !w.cfg.derivedContent(rest[len(cd)+1:]) {
			if q, ok := known[dg]; ok {
				w.violate("stored-again", fmt.Sprintf("%s stores content which the object already has as %s", p, q))
			}
			if q, ok := newFiles[dg]; ok {
				w.violate("stored-twice", fmt.Sprintf("%s stores the same content as %s of the same update", p, q))
			}
			newFiles[dg] = p
		}
		// content without any use in the new version or its state is stray
		listed := false
		for _, ps := range inv.Manifest {
			for _, q := range ps {
				listed = listed || q == p
			}
		}
		if !listed {
			w.violate("stray-content", fmt.Sprintf("%s is stored but not in the manifest", p))
		}
	}
	for p := range at {
		top, _, _ := strings.Cut(p, "/")
		if reVerDir.MatchString(top) && inv.Versions[top].State == nil {
			w.violate("stray-version-dir", fmt.Sprintf("%s belongs to no version of the inventory", p))
			break
		}
	}
	// every content known under its digest
	for d, ps := range inv.Manifest {
		if len(ps) == 0 {
			w.violate("manifest-empty", "manifest entry without path: "+d)
		}
	}
}

// onlyFolders: the update consists of input alone (adding and deleting the same file is a change)
func onlyFolders(u *Upd) bool {
	for _, op := range u.Ops {
		if op.Kind != "folder" {
			return false
		}
	}
	return true
}

// dupChecked: AddReader has no duplicate check by design (streams)
func dupChecked(u *Upd) bool {
	for _, op := range u.Ops {
		if op.Kind == "reader" {
			return false
		}
	}
	return true
}

func (c *Cfg) derivedContent(p string) bool {
	return c.derived(p) || strings.HasSuffix(p, "README.md") || c.FSArea && strings.Contains(p, "filesystem_")
}

func c12(r *Run) {
	runHistories(r, "h", r.N(1200, 20000), histOpt, func(r *Run, i int) *Cfg {
		c := genCfg(r.Rng("cfg12", i))
		c.Dedup = i%4 != 3
		return c
	}, func(w *World, s *StepRes) {
		w.monDedup(s)
		if !w.bad && w.rng.Intn(3) == 0 {
			w.noopProbe(s.ID)
		}
	}, nil)
	runForeign(r, r.N(300, 4000), func(w *World, s *StepRes) { w.monDedup(s) }, nil)
}

// dropsReadme: the description of the areas belongs to an area at the root of the object. An update which replaces
// that area by something without it is a change, although the description is written again
func (w *World) dropsReadme(u *Upd) bool {
	if w.cfg.Areas == nil || !u.Echo {
		return false
	}
	for _, op := range u.Ops {
		if pre, _ := w.cfg.prefix(op.Area); pre == "" && op.Src[readmeName] == nil {
			return true
		}
	}
	return false
}

// noopProbe feeds the current state again
func (w *World) noopProbe(id string) {
	o := w.objs[id]
	if o == nil {
		return
	}
	areas := []string{""}
	if w.cfg.Areas != nil {
		areas = sortedKeys(w.cfg.Areas)
	}
	u := genUpdHead(w.rng)
	u.Echo = w.rng.Intn(2) == 0
	u.Dedup = true
	for _, a := range areas {
		if a == "metadata" && w.cfg.FSArea {
			continue
		}
		pre, _ := w.cfg.prefix(a)
		src := map[string][]byte{}
		for l, b := range w.cfg.pure(o.head()) {
			if pre == "" {
				src[l] = b
			} else if strings.HasPrefix(l, pre+"/") {
				src[l[len(pre)+1:]] = b
			}
		}
		if w.cfg.Areas != nil && pre == "" {
			// the description of the areas is a part of an area at the root of the object
			t := readTree(w.dir)
			if inv, err := readInv(t[o.Path+"/inventory.json"]); err == nil {
				if st, _, err := resolveVersion(t, o.Path, inv.Head); err == nil && st[readmeName] != nil {
					src[readmeName] = st[readmeName]
				}
			}
		}
		u.Ops = append(u.Ops, Op{Kind: "folder", Area: a, Src: src})
	}
	s := w.step(id, u)
	if w.opFailed(s) {
		return
	}
	w.r.Count("noop_probes", 1)
	if d := diffTrees(s.Before, s.After); len(d) > 0 {
		w.violate("noop-changed", fmt.Sprintf("an update without any change altered the repository: %v", first(d, 8)))
	}
}

// ---- C13 ------------------------------------------------------------------

func (w *World) monState(s *StepRes) {
	inv, err := readInv(s.After[s.Obj.Path+"/inventory.json"])
	if err != nil {
		w.violate("no-inventory", fmt.Sprintf("no readable inventory for %q: %v", s.ID, err))
		return
	}
	seen := map[string]string{}
	for d, ps := range inv.Versions[inv.Head].State {
		for _, p := range ps {
			if x, ok := seen[p]; ok {
				w.violate("ambiguous", fmt.Sprintf("logical path %q has two contents (%s, %s)", p, x[:8], d[:8]))
			}
			seen[p] = d
		}
	}
	got := map[string]string{}
	for p, d := range seen {
		if !w.cfg.derived(p) {
			got[p] = d
		}
	}
	var diff []string
	for _, p := range sortedKeys(s.Next) {
		d, ok := got[p]
		if !ok {
			diff = append(diff, "missing "+p)
		} else if x := digest(inv.Digest, s.Next[p]); d != x && !(s.Obj.F != nil && strings.EqualFold(d, x)) {
			diff = append(diff, "wrong content for "+p)
		}
	}
	for _, p := range sortedKeys(got) {
		if _, ok := s.Next[p]; !ok {
			diff = append(diff, "unexpected "+p)
		}
	}
	w.r.Count("states_compared", 1)
	w.r.Count("logical_paths_compared", len(s.Next))
	if len(diff) > 0 {
		w.violate("state", fmt.Sprintf("logical state of %q after the update differs from the model: %v", s.ID, first(diff, 8)))
	}
}

func c13(r *Run) {
	runHistories(r, "h", r.N(1400, 24000), histOpt, func(r *Run, i int) *Cfg {
		c := genCfg(r.Rng("cfg13", i))
		for k := 0; c.Areas == nil && i%2 == 0; k++ {
			c = genCfg(r.Rng("cfg13", i, k))
		}
		return c
	}, func(w *World, s *StepRes) {
		w.monState(s)
	}, nil)
	runForeign(r, r.N(300, 4000), func(w *World, s *StepRes) { w.monState(s) }, nil)
}

// ---- C14 ------------------------------------------------------------------

func (w *World) monDigests(s *StepRes) {
	t := s.After.sub(s.Obj.Path)
	for p, b := range t {
		if !strings.HasSuffix(p, "inventory.json") || strings.Count(p, "/") > 1 {
			continue
		}
		dir := strings.TrimSuffix(p, "inventory.json")
		if dir != "" && !reVerDir.MatchString(strings.TrimSuffix(dir, "/")) {
			continue
		}
		if n := len(s.Obj.Versions); n > 20 && dir != "" && dir != s.Obj.vname(n)+"/" && w.rng.Intn(n) > 5 {
			// a sample of long histories
			continue
		}
		inv, err := readInv(b)
		if err != nil {
			w.violate("no-inventory", err.Error())
			return
		}
		sc := strings.Fields(string(t[p+"."+inv.Digest]))
		if len(sc) != 2 || sc[0] != digest(inv.Digest, b) || sc[1] != "inventory.json" {
			w.violate("sidecar", fmt.Sprintf("sidecar of %s of %q is %v", p, s.ID, sc))
		}
		check := func(alg string, m map[string][]string) map[string]bool {
			paths := map[string]bool{}
			if s.Obj.F != nil && newHash(alg) == nil {
				return paths
			}
			for d, ps := range m {
				if s.Obj.F != nil {
					d = strings.ToLower(d)
				}
				for _, cp := range ps {
					if paths[cp] {
						w.violate("twice:"+alg, fmt.Sprintf("%s lists %s twice under %s", p, cp, alg))
					}
					paths[cp] = true
					c, ok := t[cp]
					if !ok {
						w.violate("no-file", fmt.Sprintf("%s lists %s (%s) which does not exist", p, cp, alg))
						continue
					}
					w.r.Count("digests_recomputed", 1)
					if digest(alg, c) != d {
						w.violate("wrong-digest:"+alg, fmt.Sprintf("%s: %s of %s is recorded as %s but is %s", p, alg, cp, d, digest(alg, c)))
					}
				}
			}
			return paths
		}
		if s.Obj.F == nil && inv.Digest != w.cfg.Digest {
			w.violate("algorithm", fmt.Sprintf("inventory uses %s, configured was %s", inv.Digest, w.cfg.Digest))
		}
		man := check(inv.Digest, inv.Manifest)
		fix := map[string]map[string]bool{}
		for alg, m := range inv.Fixity {
			if s.Obj.F != nil && newHash(alg) == nil {
				continue
			}
			fix[alg] = check(alg, m)
			for cp := range fix[alg] {
				if !man[cp] {
					w.violate("fixity-stray", fmt.Sprintf("%s: fixity %s lists %s which is not in the manifest", p, alg, cp))
				}
			}
		}
		for _, alg := range w.cfg.Fixity {
			if alg == inv.Digest {
				continue
			}
			for cp := range man {
				if !fix[alg][cp] {
					w.violate("fixity-missing", fmt.Sprintf("%s: %s has no %s fixity entry although it is configured", p, cp, alg))
				}
			}
		}
	}
}

func c14(r *Run) {
	runHistories(r, "h", r.N(1000, 16000), histOpt, func(r *Run, i int) *Cfg {
		c := genCfg(r.Rng("cfg14", i))
		for k := 0; len(c.Fixity) == 0 && i%4 != 0; k++ {
			c = genCfg(r.Rng("cfg14", i, k))
		}
		return c
	}, func(w *World, s *StepRes) {
		w.monDigests(s)
	}, func(w *World) {
		for _, id := range w.ids {
			w.metaChecksums(id)
		}
	})
	runForeign(r, r.N(300, 4000), func(w *World, s *StepRes) { w.monDigests(s) }, nil)
}

// metaChecksums compares the checksums reported by ExtractMeta with the stored bytes
func (w *World) metaChecksums(id string) {
	o := w.objs[id]
	t := readTree(w.dir).sub(o.Path)
	err, p := Guard(func() error {
		m, e := w.env.SR.ExtractMeta("", id)
		if e != nil {
			return e
		}
		om := m.Objects[id]
		if om == nil {
			return fmt.Errorf("no metadata for %q", id)
		}
		for d, f := range om.Files {
			for _, in := range f.InternalName {
				b, ok := t[in]
				if !ok {
					w.violate("meta-file", fmt.Sprintf("metadata names %s which does not exist", in))
					continue
				}
				if digest(w.cfg.Digest, b) != d {
					w.violate("meta-digest", fmt.Sprintf("metadata reports %s for %s", d, in))
				}
				for alg, cs := range f.Checksums {
					w.r.Count("metadata_checksums_compared", 1)
					if digest(string(alg), b) != cs {
						w.violate("meta-checksum:"+string(alg), fmt.Sprintf("metadata reports %s %s for %s", alg, cs, in))
					}
				}
			}
		}
		return nil
	})
	if p != "" {
		w.violate("meta-panic:"+panicSite(p), p)
	} else if err != nil {
		w.violate("meta-error:"+errSummary(err), err.Error())
	}
}

// ---- C24 ------------------------------------------------------------------

func (w *World) monVersions(s *StepRes) {
	inv, err := readInv(s.After[s.Obj.Path+"/inventory.json"])
	if err != nil {
		w.violate("no-inventory", err.Error())
		return
	}
	n := len(s.Obj.Versions)
	if len(inv.Versions) != n || inv.Head != s.Obj.vname(n) {
		w.violate("version-count", fmt.Sprintf("object %q has %d versions and head %s, expected %d", s.ID, len(inv.Versions), inv.Head, n))
		return
	}
	for i, mv := range s.Obj.Versions {
		v, ok := inv.Versions[mv.Name]
		if !ok {
			w.violate("version-name", fmt.Sprintf("object %q has no version %s", s.ID, mv.Name))
			continue
		}
		w.r.Count("version_records_compared", 1)
		if v.Message == nil && mv.Msg != "" || v.Message != nil && *v.Message != mv.Msg {
			w.violate("message", fmt.Sprintf("version %s of %q: message %q recorded, given was %q", mv.Name, s.ID, strp(v.Message), mv.Msg))
		}
		un, ua := "", ""
		if v.User != nil {
			un, ua = v.User.Name, v.User.Address
		}
		if un != mv.User || ua != mv.Addr {
			w.violate("user", fmt.Sprintf("version %s of %q: user %q <%q> recorded, given was %q <%q>", mv.Name, s.ID, un, ua, mv.User, mv.Addr))
		}
		ts, err := time.Parse(time.RFC3339, v.Created)
		if err != nil {
			w.violate("created-format", fmt.Sprintf("created %q: %v", v.Created, err))
		} else if !mv.T0.IsZero() && (ts.Before(mv.T0.Add(-time.Second)) || ts.After(mv.T1.Add(time.Second))) {
			w.violate("created", fmt.Sprintf("version %s of %q was created %s, recorded is %s", mv.Name, s.ID, mv.T0.Format(time.RFC3339Nano), v.Created))
		}
		_ = i
	}
}

func strp(s *string) string {
	if s == nil {
		return "<none>"
	}
	return *s
}

func c24(r *Run) {
	runHistories(r, "h", r.N(1400, 24000), histOpt, nil, func(w *World, s *StepRes) {
		w.monVersions(s)
	}, nil)
	runForeign(r, r.N(300, 4000), func(w *World, s *StepRes) { w.monVersions(s) }, nil)
}

// diffParts splits an entry of diffTrees into verb and path
func diffParts(d string) []string {
	verb, p, _ := strings.Cut(d, " ")
	if verb == "changed" {
		if i := strings.LastIndex(p, " ("); i > 0 {
			p = p[:i]
		}
	}
	return []string{verb, p}
}
