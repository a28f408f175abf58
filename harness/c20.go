package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/andybalholm/brotli"
	"github.com/je4/gocfl/v2/pkg/ocfl"
)

func init() {
	register("C20", "exploration", "random histories with filesystem, indexer and metafile extensions in every storage mode, compression and hook order; non-trivial when at least one object was written; the reported metadata is compared with an independent reading of the inventory, of the stored metadata files and with what was ingested, after every update, on the updating instance and after reloading", c20)
}

// unpack reads a stored jsonl file
func unpack(p string, b []byte) ([]byte, error) {
	switch path.Ext(p) {
	case ".br":
		return io.ReadAll(brotli.NewReader(bytes.NewReader(b)))
	case ".gz":
		z, err := gzip.NewReader(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		return io.ReadAll(z)
	}
	return b, nil
}

// jline is a line of filesystem or indexer metadata
type jline struct {
	raw  map[string]any
	path string
}

// storedLines finds the metadata an extension stored for a version: all files <base>_<version>.jsonl* of the object
func storedLines(t Tree, base, ver string) (lines []jline, files []string, err error) {
	for _, p := range sortedKeys(t) {
		if strings.HasSuffix(p, "/") {
			continue
		}
		n := path.Base(p)
		if n != base+"_"+ver+".jsonl" && n != base+"_"+ver+".jsonl.gz" && n != base+"_"+ver+".jsonl.br" {
			continue
		}
		files = append(files, p)
		b, err := unpack(p, t[p])
		if err != nil {
			return nil, files, fmt.Errorf("%s cannot be decompressed: %v", p, err)
		}
		for _, l := range bytes.Split(b, []byte("\n")) {
			if len(l) == 0 {
				continue
			}
			m := map[string]any{}
			if err := json.Unmarshal(l, &m); err != nil {
				return nil, files, fmt.Errorf("%s: broken line %q", p, clip(string(l), 200))
			}
			pa, _ := m["path"].(string)
			if pa == "" {
				pa, _ = m["Path"].(string)
			}
			lines = append(lines, jline{m, pa})
		}
	}
	return
}

func canon(v any) string {
	b, _ := json.Marshal(v)
	return canonJSON(b)
}

func sorted(s []string) []string {
	r := append([]string{}, s...)
	sort.Strings(r)
	return r
}

func eqStrings(a, b []string) bool {
	a, b = sorted(a), sorted(b)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// metaDoc is the metadata report as a consumer of the JSON sees it
type metaDoc struct {
	ID, DigestAlgorithm, Head string
	Versions                  map[string]struct {
		Created                time.Time
		Message, Name, Address string
	}
	Files map[string]struct {
		Checksums    map[string]string
		InternalName []string
		VersionName  map[string][]string
		Extension    map[string]any
	}
	Extension any
}

func parseMeta(m *ocfl.ObjectMetadata) (*metaDoc, error) {
	b, err := json.Marshal(m)
	if err != nil {
		return nil, err
	}
	d := &metaDoc{}
	return d, json.Unmarshal(b, d)
}

// metaMonitor keeps what the monitor knows about the object
type metaMonitor struct {
	meta map[string]string // id -> canonical metafile document
	rec  map[string]string // id|version -> canonical filesystem report of the version, which must never change
}

// checkMeta compares the report with the object on disk
func (w *World) checkMeta(o *MObj, t Tree, m *ocfl.ObjectMetadata, mm *metaMonitor, when string) {
	bad := func(key, f string, a ...any) {
		w.violate(key, fmt.Sprintf("metadata of %q (%s): ", o.ID, when)+fmt.Sprintf(f, a...))
	}
	d, err := parseMeta(m)
	if err != nil {
		bad("report-json", "the report is no JSON: %v", err)
		return
	}
	ot := t.sub(o.Path)
	inv, err := readInv(ot["inventory.json"])
	if err != nil {
		return
	}
	if d.ID != inv.ID || d.Head != inv.Head || d.DigestAlgorithm != inv.Digest {
		bad("report-head", "id/head/digest %q %q %q, inventory has %q %q %q", d.ID, d.Head, d.DigestAlgorithm, inv.ID, inv.Head, inv.Digest)
	}
	for v, iv := range inv.Versions {
		rv, ok := d.Versions[v]
		if !ok {
			bad("report-version-missing", "version %s is not reported", v)
			continue
		}
		ct, _ := time.Parse(time.RFC3339, iv.Created)
		msg, un, ua := "", "", ""
		if iv.Message != nil {
			msg = *iv.Message
		}
		if iv.User != nil {
			un, ua = iv.User.Name, iv.User.Address
		}
		if !rv.Created.Truncate(time.Second).Equal(ct.Truncate(time.Second)) || rv.Message != msg || rv.Name != un || rv.Address != ua {
			bad("report-version", "version %s is reported as %+v, inventory has %s %q %q %q", v, rv, iv.Created, msg, un, ua)
		}
	}
	for v := range d.Versions {
		if _, ok := inv.Versions[v]; !ok {
			bad("report-version-invented", "version %s does not exist", v)
		}
	}
	// files
	cs := map[string]map[string]string{} // content path -> alg -> digest
	for alg, ds := range inv.Fixity {
		for dg, ps := range ds {
			for _, p := range ps {
				if cs[p] == nil {
					cs[p] = map[string]string{}
				}
				cs[p][alg] = dg
			}
		}
	}
	for dg, ps := range inv.Manifest {
		f, ok := d.Files[dg]
		if !ok {
			bad("report-file-missing", "content %s is not reported", ps)
			continue
		}
		w.r.Count("reported_files_compared", 1)
		if !eqStrings(f.InternalName, ps) {
			bad("report-internal", "content %s is reported with internal names %q", ps, f.InternalName)
		}
		want := map[string]string{}
		for _, p := range ps {
			for a, c := range cs[p] {
				want[a] = c
			}
		}
		if canon(want) != canon(f.Checksums) {
			bad("report-checksums", "content %s is reported with checksums %v, inventory has %v", ps, f.Checksums, want)
		}
		for v, iv := range inv.Versions {
			var names []string
			for sd, l := range iv.State {
				if strings.EqualFold(sd, dg) {
					names = append(names, l...)
				}
			}
			if !eqStrings(names, f.VersionName[v]) {
				bad("report-names", "content %s has names %q in %s, reported are %q", ps, names, v, f.VersionName[v])
			}
		}
		for v := range f.VersionName {
			if _, ok := inv.Versions[v]; !ok {
				bad("report-names", "content %s has names in non-existing version %s", ps, v)
			}
		}
	}
	for dg := range d.Files {
		if _, ok := inv.Manifest[dg]; !ok {
			bad("report-file-invented", "reported content %s is not in the inventory", dg)
		}
	}
	if w.cfg.HasFS {
		want := map[string]map[string][]string{}
		for v := range inv.Versions {
			lines, files, err := storedLines(ot, "filesystem", v)
			if err != nil {
				bad("stored-broken", "%v", err)
				continue
			}
			if len(files) > 1 {
				bad("stored-twice", "filesystem metadata of %s is stored in several files %q", v, files)
			}
			state := inv.logical(v)
			for _, l := range lines {
				w.r.Count("filesystem_lines_compared", 1)
				dg, ok := state[l.path]
				if !ok {
					continue
				}
				if want[dg] == nil {
					want[dg] = map[string][]string{}
				}
				want[dg][v] = append(want[dg][v], canon(l.raw))
			}
		}
		got := map[string]map[string][]string{}
		for dg, f := range d.Files {
			e, ok := f.Extension["NNNN-filesystem"]
			if !ok {
				continue
			}
			for v, ls := range asMap(e) {
				l, _ := ls.([]any)
				for _, x := range l {
					if got[dg] == nil {
						got[dg] = map[string][]string{}
					}
					got[dg][v] = append(got[dg][v], canon(x))
				}
			}
		}
		for _, pair := range []struct {
			a, b map[string]map[string][]string
			what string
		}{{want, got, "recorded"}, {got, want, "reported"}} {
			for dg, vs := range pair.a {
				for v, ls := range vs {
					if !eqStrings(ls, pair.b[dg][v]) {
						bad("filesystem-report", "filesystem metadata of %v in %s: recorded %v, reported %v (found on the %s side)", inv.Manifest[dg], v, first(want[dg][v], 4), first(got[dg][v], 4), pair.what)
						return
					}
				}
			}
		}
		for v := range inv.Versions {
			all := map[string][]string{}
			for dg, vs := range got {
				if len(vs[v]) > 0 {
					all[dg] = sorted(vs[v])
				}
			}
			k := o.ID + "|" + v
			c := canon(all)
			if old, ok := mm.rec[k]; ok && old != c {
				bad("filesystem-history", "filesystem metadata of version %s changed: %s -> %s", v, clip(old, 600), clip(c, 600))
			}
			mm.rec[k] = c
		}
	}
	if w.cfg.Index {
		for dg, f := range d.Files {
			var content []byte
			have := false
			user := false
			for _, p := range f.InternalName {
				content, have = ot[p]
			}
			for _, l := range f.VersionName {
				for _, n := range l {
					user = user || !w.cfg.derived(n) && !(w.cfg.Folders != "" && path.Base(n) == w.cfg.Folders)
				}
			}
			e, ok := f.Extension["NNNN-indexer"]
			if !ok {
				if user && have && w.indexed(o, dg, content) {
					bad("indexer-missing", "no indexer result is reported for %q (%v)", f.InternalName, f.VersionName)
				}
				continue
			}
			if !have {
				continue
			}
			w.r.Count("indexer_results_compared", 1)
			b, _ := json.Marshal(e)
			p, mt := classify(content)
			if !bytes.Contains(b, []byte(`"`+digest("sha256", content)+`"`)) || !bytes.Contains(b, []byte(fmt.Sprintf(`"seen":%d`, len(content)))) ||
				!bytes.Contains(b, []byte(`"`+mt+`"`)) || !bytes.Contains(b, []byte(`"`+p+`"`)) {
				bad("indexer-report", "the indexer result reported for %q (%d bytes, sha256 %s) belongs to another content: %s", f.InternalName, len(content), digest("sha256", content), clip(string(b), 500))
			}
		}
	}
	if w.cfg.MetaFile != "" {
		want := mm.meta[o.ID]
		got := canon(asMap(d.Extension)["NNNN-metafile"])
		w.r.Count("metafile_reports_compared", 1)
		if want != got {
			bad("metafile-report", "the metafile reported is %s, given was %s", clip(got, 400), clip(want, 400))
		}
	}
}

// indexed: whether the content went through the content stream at ingest (copies of content which is already
// known from elsewhere do not)
func (w *World) indexed(o *MObj, dg string, content []byte) bool {
	return w.streamed[o.ID+"|"+dg]
}

// metaVersioned: the metafile is part of the content, not only of the extension folder
func (w *World) metaVersioned() bool {
	for _, e := range w.cfg.Obj {
		if e.Name == "NNNN-metafile" {
			return !strings.EqualFold(asString(e.Cfg["storageType"]), "extension")
		}
	}
	return false
}

func c20(r *Run) {
	r.Assume = []string{"the format recognition is a stand-in in-process action; the extension and the dispatcher that drive it are the real code", "metadata lines of a file replaced within the same update are not judged"}
	for _, cc := range []struct {
		n   int
		opt HistOpt
	}{{r.N(300, 5000), HistOpt{Odd: true, Ops: true, Noop: true, Mixed: true}}} {
		runHistories(r, "c20", cc.n, cc.opt, func(r *Run, i int) *Cfg { return richCfg(r.Rng("c20cfg", i), r.Scratch) }, w20, func(w *World) {
			for k := 0; k < 2; k++ {
				w.reload()
				for _, id := range w.ids {
					w.monMeta(w.objs[id], "reloaded at the end", nil)
				}
			}
		})
	}
}

func w20(w *World, s *StepRes) {
	if w.mm == nil {
		w.mm = &metaMonitor{map[string]string{}, map[string]string{}}
		w.streamed = map[string]bool{}
	}
	o := w.objs[s.ID]
	if o == nil {
		return
	}
	ot, bt := s.After.sub(o.Path), s.Before.sub(o.Path)
	inv, err := readInv(ot["inventory.json"])
	if err != nil {
		w.violate("no-inventory", "after an update: "+err.Error())
		return
	}
	if s.Meta != nil && (s.NewVersion != "" || !w.metaVersioned()) {
		w.mm.meta[s.ID] = canonJSON(s.Meta)
	}
	// what earlier versions stored is untouched
	for _, p := range sortedKeys(bt) {
		if !strings.HasPrefix(p, "extensions/") || !strings.Contains(path.Base(p), ".jsonl") {
			continue
		}
		w.r.Count("stored_metadata_files_compared", 1)
		if b, ok := ot[p]; !ok || !bytes.Equal(b, bt[p]) {
			w.violate("stored-metadata-changed", fmt.Sprintf("stored metadata %s of an earlier version was changed by a later update", p))
		}
	}
	if s.NewVersion != "" {
		w.monRecorded(s, o, inv, ot)
	}
	if w.bad {
		return
	}
	// updating instance, and the same storage root instance
	if lo := w.env.Last; lo != nil && lo.GetID() == s.ID && s.NewVersion != "" {
		w.monMeta(o, "updating instance", lo)
	}
	if w.bad {
		return
	}
	w.monMeta(o, "same storage root", nil)
	if w.rng.Intn(2) == 0 && !w.bad {
		if w.reload() == nil {
			w.monMeta(o, "reloaded", nil)
		}
	}
}

// monRecorded: what was ingested in this step is recorded
func (w *World) monRecorded(s *StepRes, o *MObj, inv *jinv, ot Tree) {
	ver := inv.Head
	state := inv.logical(ver)
	newContent := map[string]bool{} // digests first stored in this version
	for dg, ps := range inv.Manifest {
		old := false
		for _, p := range ps {
			old = old || !strings.HasPrefix(p, ver+"/")
		}
		if !old {
			newContent[dg] = true
		}
	}
	type fileIn struct {
		src  string
		data []byte
		fold bool
		op   *Op
	}
	last := map[string]fileIn{}
	multi := map[string]bool{}
	for oi, op := range s.Upd.Ops {
		switch op.Kind {
		case "folder":
			for p, b := range op.Src {
				l := w.cfg.logical(op.Area, p)
				if _, ok := last[l]; ok {
					multi[l] = true
				}
				last[l] = fileIn{p, b, true, &s.Upd.Ops[oi]}
			}
		case "data", "reader":
			for _, n := range append([]string{op.Path}, op.More...) {
				l := w.cfg.logical(op.Area, n)
				if _, ok := last[l]; ok {
					multi[l] = true
				}
				last[l] = fileIn{n, op.Data, false, nil}
			}
		case "delete", "rename":
			multi[op.Path] = true
			multi[op.To] = true
		}
	}
	empty := digest(inv.Digest, nil)
	for l, f := range last {
		dg := state[l]
		if newContent[dg] && !(w.cfg.Folders != "" && dg == empty) {
			w.streamed[o.ID+"|"+dg] = true
		}
		_ = f
	}
	if !w.cfg.HasFS {
		return
	}
	lines, _, err := storedLines(ot, "filesystem", ver)
	if err != nil {
		w.violate("stored-broken", err.Error())
		return
	}
	byPath := map[string][]jline{}
	for _, l := range lines {
		byPath[l.path] = append(byPath[l.path], l)
		if sv := asString(asMap(l.raw["meta"])["stateVersion"]); sv != ver {
			w.violate("recorded-version", fmt.Sprintf("filesystem metadata of %q stored for version %s carries version %q", l.path, ver, sv))
		}
	}
	seenDg := map[string]bool{}
	recDg := map[string]bool{}
	for l, f := range last {
		if multi[l] || !f.fold {
			continue
		}
		dg := state[l]
		for _, ln := range byPath[l] {
			m := asMap(ln.raw["meta"])
			recDg[dg] = true
			if w.cfg.Folders != "" && len(f.data) == 0 && path.Base(l) == w.cfg.Folders {
				continue
			}
			sz, _ := m["size"].(float64)
			mt, terr := time.Parse(time.RFC3339Nano, asString(m["mTime"]))
			w.r.Count("recorded_lines_checked", 1)
			if int(sz) != len(f.data) {
				w.violate("recorded-size", fmt.Sprintf("size recorded for %q in %s is %v, the file has %d bytes", l, ver, m["size"], len(f.data)))
			}
			if want := mtimeFor(f.src, f.data); terr != nil || !mt.Equal(want) {
				w.violate("recorded-mtime", fmt.Sprintf("modification time recorded for %q in %s is %v, the file has %v", l, ver, m["mTime"], want))
			}
			at, _ := time.Parse(time.RFC3339Nano, asString(m["aTime"]))
			if want := mtimeFor(f.src, f.data).Add(time.Hour); at.Before(want) {
				w.violate("recorded-atime", fmt.Sprintf("access time recorded for %q in %s is %v, the file has %v", l, ver, m["aTime"], want))
			}
			if want, ok := f.op.CTime[f.src]; ok {
				if ct, err := time.Parse(time.RFC3339Nano, asString(m["cTime"])); err != nil || !ct.Equal(want) {
					w.violate("recorded-ctime", fmt.Sprintf("change time recorded for %q in %s is %v, the file has %v", l, ver, m["cTime"], want))
				}
			}
			if want := f.op.Link[f.src]; asString(m["symlink"]) != want {
				w.violate("recorded-link", fmt.Sprintf("link recorded for %q in %s is %q, the file has %q", l, ver, asString(m["symlink"]), want))
			} else if want != "" {
				w.r.Count("recorded_links_checked", 1)
			} else if want := modeFor(f.src, f.data).String(); len(f.op.CTime) > 0 && asString(m["attr"]) != want {
				w.violate("recorded-attr", fmt.Sprintf("attributes recorded for %q in %s are %q, the file has %s", l, ver, asString(m["attr"]), want))
			}
		}
		if newContent[dg] && !(w.cfg.Folders != "" && dg == empty) {
			seenDg[dg] = true
			if !w.cfg.Dedup && !s.Upd.Dedup && len(byPath[l]) == 0 {
				w.violate("not-recorded", fmt.Sprintf("no filesystem metadata is recorded for %q in %s", l, ver))
			}
		}
	}
	// every content stored by a folder of this update has at least one line under one of its names
	for dg := range seenDg {
		ok := recDg[dg]
		for l, d := range state {
			// the one that was stored may be a data/reader operation or renamed
			if d == dg && (multi[l] || len(byPath[l]) > 0) {
				ok = true
			}
			if f, is := last[l]; d == dg && is && !f.fold {
				ok = true
			}
		}
		for l := range multi {
			if f, is := last[l]; is && digest(inv.Digest, f.data) == dg {
				ok = true
			}
		}
		if !ok {
			w.violate("not-recorded", fmt.Sprintf("no filesystem metadata is recorded for the content %v stored in %s", inv.Manifest[dg], ver))
		}
	}
	if w.cfg.Folders != "" {
		for _, op := range s.Upd.Ops {
			if op.Kind != "folder" {
				continue
			}
			for _, d := range dirsOf(op.Src, op.Dirs) {
				l := w.cfg.logical(op.Area, path.Join(d, w.cfg.Folders))
				_, before := s.Prev[l]
				if state[l] != empty {
					w.violate("folder-missing", fmt.Sprintf("folder %q of the source is not represented by %q in %s", d, l, ver))
				} else if !before && len(byPath[l]) == 0 && !multi[l] {
					w.violate("folder-not-recorded", fmt.Sprintf("no filesystem metadata is recorded for the folder of %q in %s", l, ver))
				}
			}
		}
	}
}

func (w *World) monMeta(o *MObj, when string, obj ocfl.Object) {
	if o == nil {
		return
	}
	var m, m2 *ocfl.ObjectMetadata
	err, p := Guard(func() (err error) {
		if obj == nil {
			sm, err := w.env.SR.ExtractMeta("", o.ID)
			if err != nil {
				return err
			}
			if len(sm.Objects) != 1 {
				return fmt.Errorf("%d objects reported", len(sm.Objects))
			}
			m = sm.Objects[o.ID]
			obj, err = w.env.SR.LoadObjectByID(o.ID)
			if err != nil {
				return err
			}
		} else if m, err = obj.GetMetadata(); err != nil {
			return err
		}
		m2, err = obj.GetMetadata()
		return err
	})
	if p != "" {
		w.violate("metadata-panic:"+panicSite(p), "reading metadata panicked ("+when+"): "+p)
		return
	}
	if err != nil || m == nil || m2 == nil {
		w.violate("metadata-error:"+errSummary(err), fmt.Sprintf("reading metadata of %q failed (%s): %v", o.ID, when, err))
		return
	}
	t := readTree(w.dir)
	w.checkMeta(o, t, m, w.mm, when)
	if !w.bad {
		w.checkMeta(o, t, m2, w.mm, when+", second reading")
	}
	w.r.Count("reports_compared", 2)
}
