package main

// Containment: hostile names never lead writes out of the object or the target.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"strings"

	"github.com/je4/filesystem/v3/pkg/osfsrw"
	"github.com/je4/gocfl/v2/pkg/ocfl"
)

func init() {
	register("C16", "exploration", "roots of random histories; updates and creations with hostile file names (from listings, data, streams, renames), areas, identifiers, extension configurations (stored and new) and inventories, and extractions of inventories with hostile paths; every creating, writing, renaming and removing call is observed and must stay below the directory of the object or the target, whatever the operation returns; names that lead outside must be refused; non-trivial when a hostile value was in use", c16)
}

// hostilePath draws a path that tries to leave the place it is used in
func hostilePath(rng *rand.Rand, others []string) string {
	up := strings.Repeat("../", 1+rng.Intn(6))
	switch rng.Intn(10) {
	case 0, 1:
		return up + pick(rng, []string{"x", "evil.txt", "v1/content/a.txt", "inventory.json", "extensions/initial/config.json"})
	case 2:
		if len(others) > 0 {
			return up + pick(rng, others) + pick(rng, []string{"", "/inventory.json", "/v1/content/x", "/v1/inventory.json"})
		}
		return up
	case 3:
		return pick(rng, []string{"a/", "a/b/", "./", "x/./"}) + up + "x"
	case 4:
		return "/" + up + "x"
	case 5:
		return pick(rng, []string{"..", ".", "", "/", "...", "a/..", "a/../b", "a//b", "./a", "/abs", "//x/y", "a/", "a/.", "../", "./.."})
	case 6:
		return strings.ReplaceAll(up, "/", "\\") + "x"
	case 7:
		return pick(rng, []string{"a\x00b", "..\x00/x", "\xff\xfe", "..%2fx", "%2e%2e/x", "=u002E=u002E/x", "C:\\x", "~/x", "\u2025/x", "．．/x"})
	case 8:
		return "v1/" + pick(rng, []string{"content/x", "inventory.json", "../v1/content/a.txt", "../inventory.json"})
	}
	return up + strings.Repeat("a/../", rng.Intn(3)) + "x"
}

// hostileFS lists and opens names as given
type hostileFS struct{ names []string }

func (h *hostileFS) Open(name string) (fs.File, error) {
	if name == "." {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
	}
	m := &MemFS{}
	return &memFile{fi: memInfo{name: path.Base(name), size: 4}, m: m, name: name, data: []byte("evil")}, nil
}
func (h *hostileFS) Stat(name string) (fs.FileInfo, error) {
	return memInfo{name: path.Base(name), dir: name == ".", size: 4}, nil
}
func (h *hostileFS) ReadDir(name string) ([]fs.DirEntry, error) {
	var l []fs.DirEntry
	for _, n := range h.names {
		l = append(l, memInfo{name: n, size: 4})
	}
	return l, nil
}
func (h *hostileFS) Fullpath(name string) (string, error) { return "/nonexistent/" + name, nil }

// hostileCfg replaces string parameters of a configuration
func hostileCfg(rng *rand.Rand, v any, others []string) (any, int) {
	n := 0
	var walk func(v any, key string) any
	walk = func(v any, key string) any {
		switch x := v.(type) {
		case string:
			if key != "extensionName" && key != "extension" && key != "storageType" && key != "StorageType" && key != "compress" && key != "Compress" && rng.Intn(2) == 0 {
				n++
				return hostilePath(rng, others)
			}
		case map[string]any:
			for _, k := range sortedKeys(x) {
				x[k] = walk(x[k], k)
			}
		case []any:
			for i := range x {
				x[i] = walk(x[i], key)
			}
		}
		return v
	}
	return walk(normJSON(v), ""), n
}

func c16(r *Run) {
	r.Assume = []string{"symbolic links below the target or repository are not planted", "the harness refuses calls that leave the filesystem, so that their consequences are not observed"}
	opt := HistOpt{Odd: true, Ops: true}
	runHistories(r, "e", r.N(130, 700), opt, faultCfg(r), func(w *World, s *StepRes) {}, func(w *World) {
		for k := 0; k < r.N(22, 60) && !w.bad; k++ {
			w.hostileIngest()
		}
		for k := 0; k < r.N(10, 30) && !w.bad; k++ {
			w.hostileExtract()
		}
	})
	r.Parallel(r.N(60, 400), func(i int) {
		rng := r.Rng("foreign", i)
		t, _, paths, ver := foreignRoot(rng, 1+rng.Intn(2))
		dir := filepath.Join(r.Scratch, fmt.Sprintf("xf%d", i))
		defer os.RemoveAll(dir)
		w := &World{r: r, rng: rng, cfg: &Cfg{Ver: ver, Digest: "sha512", Label: "foreign"}, dir: dir, tmp: dir + "-tmp", objs: map[string]*MObj{}}
		defer os.RemoveAll(w.tmp)
		if err := writeTree(dir, t); err != nil {
			panic(err)
		}
		for k, p := range paths {
			w.objs[fmt.Sprint(k)] = &MObj{ID: fmt.Sprint(k), Path: p}
		}
		for k := 0; k < 12 && !w.bad; k++ {
			w.hostileExtract()
		}
	})
}

// deepCopy puts the root into a deep scratch directory
func (w *World) deepCopy(t Tree) (string, func()) {
	top := w.tmpDir()
	dir := filepath.Join(top, "a/b/c/d/e/f/g/h")
	if err := writeTree(dir, t); err != nil {
		panic(err)
	}
	return dir, func() { os.RemoveAll(top) }
}

func (w *World) objectPaths(t Tree) (l []string) {
	for _, ps := range findObjects(t) {
		l = append(l, ps...)
	}
	sortStrings(l)
	return
}

func hostileName(p string) bool { return escapes(strings.TrimLeft(p, "/")) }

func (w *World) hostileIngest() {
	rng, r := w.rng, w.r
	t := readTree(w.dir)
	others := w.objectPaths(t)
	cfg := *w.cfg
	id, objPath := "", ""
	if len(w.ids) > 0 && rng.Intn(3) != 0 {
		id = pick(rng, w.ids)
		objPath = w.objs[id].Path
	} else {
		id = fmt.Sprintf("%s-%d", w.newID(70), rng.Intn(1000))
	}
	u := genUpdHead(rng)
	u.Dedup = rng.Intn(2) == 0
	u.Areas = rng.Intn(2) == 0
	area := ""
	if cfg.Areas != nil {
		area = pick(rng, append(sortedKeys(cfg.Areas), "", "full"))
	}
	must := false
	class := ""
	var hfs *hostileFS
	harea := ""
	plain := Op{Kind: "data", Path: fmt.Sprintf("plain %d.txt", rng.Intn(9)), Data: padded([]byte(fmt.Sprint("plain", rng.Intn(100)))), Area: area}
	hp := hostilePath(rng, others)
	switch rng.Intn(11) {
	case 0:
		class = "data"
		u.Ops = []Op{{Kind: "data", Path: hp, Data: padded([]byte("evil")), Area: area}}
		must = hostileName(hp) && (cfg.Areas == nil || hostileName(cfg.logical(area, hp)))
	case 1:
		class = "reader"
		more := []string{hostilePath(rng, others), "ok"}[:rng.Intn(3)]
		u.Ops = []Op{{Kind: "reader", Path: hp, More: more, Data: padded([]byte("evil")), Area: area}}
		if rng.Intn(2) == 0 {
			u.Ops[0].Path, u.Ops[0].More = "ok name", []string{hp}
		}
		must = hostileName(hp) && (cfg.Areas == nil || hostileName(cfg.logical(area, hp)))
	case 2:
		class = "listing"
		hfs = &hostileFS{names: []string{hp}}
		if rng.Intn(2) == 0 {
			hfs.names = append(hfs.names, "ok.txt")
		}
		j := path.Join(".", hp)
		must = hostileName(j) && (cfg.Areas == nil || hostileName(cfg.logical(area, j)))
	case 3:
		class = "rename"
		u.Ops = []Op{plain, {Kind: "rename", Path: cfg.logical(area, plain.Path), To: hp}}
	case 4:
		class = "area"
		harea = hp
		plain.Area = hp
		u.Ops = []Op{plain}
		if rng.Intn(2) == 0 {
			u.Ops = []Op{{Kind: "folder", Area: hp, Src: map[string][]byte{"a": padded([]byte("x"))}}}
		}
	case 5, 6:
		class = "identifier"
		id, objPath = hp, ""
		if len(others) > 0 && rng.Intn(3) == 0 {
			id = pick(rng, []string{pick(rng, others) + "/v1", pick(rng, others) + "/v1/content/x", path.Dir(pick(rng, others)), pick(rng, others) + "/..", pick(rng, others) + "/.", pick(rng, others)})
		} else if rng.Intn(4) == 0 {
			id = pick(rng, []string{"extensions", "extensions/x", "ocfl_layout.json", "0=ocfl_1.1", "", "extensions/initial", "./extensions", "info:../../x", "urn:..", "urn:/..", "edu/../..", "/"})
		}
		if w.objs[id] != nil {
			objPath = w.objs[id].Path
		}
		u.Ops = []Op{plain}
	case 7, 8:
		class = "stored config"
		if objPath == "" {
			return
		}
		n := 0
		for _, p := range sortedKeys(t) {
			if strings.HasPrefix(p, objPath+"/extensions/") && path.Base(p) == "config.json" {
				var v any
				if json.Unmarshal(t[p], &v) != nil {
					continue
				}
				v, k := hostileCfg(rng, v, others)
				n += k
				t[p] = jsonBytes(v)
			}
		}
		if n == 0 {
			return
		}
		u.Ops = []Op{plain, {Kind: "folder", Area: area, Src: map[string][]byte{"a/b": padded([]byte(fmt.Sprint(rng.Intn(1000))))}}}
	case 9:
		class = "new config"
		id, objPath = fmt.Sprintf("%s-%d", w.newID(80), rng.Intn(1000)), ""
		n := 0
		var l []ExtSpec
		for _, e := range cfg.Obj {
			v, k := hostileCfg(rng, e.Cfg, others)
			n += k
			m, _ := v.(map[string]any)
			if rng.Intn(12) == 0 {
				m["extensionName"] = hostilePath(rng, others)
			}
			l = append(l, ExtSpec{Name: e.Name, Cfg: m, Files: e.Files})
		}
		cfg.Obj = l
		if n == 0 {
			return
		}
		u.Ops = []Op{plain}
	case 10:
		class = "inventory"
		if objPath == "" {
			return
		}
		var m map[string]any
		if json.Unmarshal(t[objPath+"/inventory.json"], &m) != nil {
			return
		}
		switch rng.Intn(4) {
		case 0:
			m["contentDirectory"] = hp
		case 1:
			m["id"] = hp
		case 2:
			h, _ := m["head"].(string)
			vs, _ := m["versions"].(map[string]any)
			nh := pick(rng, []string{"v9/../../x", "../v9", hp, "v9"})
			vs[nh] = vs[h]
			m["head"] = nh
		case 3:
			mf, _ := m["manifest"].(map[string]any)
			for _, d := range sortedKeys(mf) {
				if l, ok := mf[d].([]any); ok && rng.Intn(2) == 0 {
					mf[d] = append(l, hp)
				}
			}
		}
		set := map[string][]byte{}
		resign(set, t, objPath, "", jsonBytes(m), w.cfg.Digest)
		for p, b := range set {
			t[p] = b
		}
		if rng.Intn(2) == 0 {
			u.Ops = []Op{plain}
		} else {
			u.Echo = true
			u.Ops = []Op{plain, {Kind: "folder", Area: area, Src: map[string][]byte{"a/b": padded([]byte(fmt.Sprint(rng.Intn(1000))))}}}
		}
	}
	t = plantable(t)
	dir, undo := w.deepCopy(t)
	defer undo()
	rec := NewRec()
	cleanup, perr := w.prepare(u)
	if perr != nil {
		return
	}
	defer cleanup()
	err, pan := Guard(func() error {
		e, err := openRoot(dir, &cfg, rec)
		if err != nil {
			return err
		}
		if hfs == nil {
			return e.update(id, u)
		}
		var o ocfl.Object
		if objPath != "" {
			o, err = e.SR.LoadObjectByID(id)
		} else {
			var mgr ocfl.ExtensionManager
			if mgr, err = e.objManager(); err == nil {
				o, err = e.SR.CreateObject(id, e.Cfg.objver(), e.Cfg.dig(), e.Cfg.fix(), mgr)
			}
		}
		if err != nil {
			return err
		}
		if _, err := o.StartUpdate(nil, u.Msg, u.User, u.Addr, u.Echo); err != nil {
			return err
		}
		if err := o.AddFolder(hfs, nil, u.Dedup, area); err != nil {
			return err
		}
		if err := o.EndUpdate(); err != nil {
			return err
		}
		return o.Close()
	})
	r.Case(fmt.Sprint("ingest ", class, " ", hp, w.cfg.Label), true)
	r.Count("ingest_"+strings.ReplaceAll(class, " ", "_"), 1)
	r.Count("mutations_observed", len(rec.Mutations))
	if err != nil {
		r.Count("ingests_refused", 1)
	}
	report := func(key, msg string) {
		w.bad = true
		r.Violate(key+":"+class, fmt.Sprintf("%s\n    %s: %q area %q id %q returned %v %s\n    history: %s", msg, class, hp, harea, id, err, pan, strings.Join(w.log, "\n             ")), map[string]any{"config": cfg, "history": w.log, "hostile": hp, "class": class, "update": describe(id, u)})
	}
	if pan != "" {
		report("panic:"+panicSite(pan), "an update with hostile input panicked: "+pan)
		return
	}
	if len(rec.Escapes) > 0 {
		report("escape", fmt.Sprintf("calls leave the storage root: %v", first(rec.Escapes, 5)))
		return
	}
	for _, m := range rec.Mutations {
		p := path.Clean("/" + m.Path)[1:]
		if objPath == "" && m.Op == "create" && strings.HasPrefix(path.Base(p), "0=ocfl_object_") {
			objPath = path.Dir(p)
			if objPath == "." {
				report("place", "an object is created in the root itself")
				return
			}
			for _, o := range append([]string{"extensions"}, others...) {
				if objPath == o || strings.HasPrefix(objPath, o+"/") || strings.HasPrefix(o, objPath+"/") {
					report("place", fmt.Sprintf("an object is created in %q although there is %q", objPath, o))
					return
				}
			}
		}
	}
	for _, m := range rec.Mutations {
		p := path.Clean("/" + m.Path)[1:]
		if objPath != "" && (p == objPath || strings.HasPrefix(p, objPath+"/") || m.Op == "mkdir" && strings.HasPrefix(objPath+"/", p+"/")) {
			continue
		}
		if m.Op == "mkdir" && (p == "" || p == "extensions") {
			continue
		}
		if m.Op == "mkdir" && objPath == "" && err != nil && !within(others, p) {
			continue // on the way to an object that could not be created
		}
		report("outside", fmt.Sprintf("%s %s is outside of the object's directory %q", m.Op, m.Path, objPath))
		return
	}
	if must && err == nil {
		report("accepted", "a path that leads elsewhere was accepted")
		return
	}
	if err == nil && objPath != "" {
		b, e := os.ReadFile(filepath.Join(dir, objPath, "inventory.json"))
		if e != nil {
			return
		}
		inv, e := readInv(b)
		if e != nil {
			return
		}
		for _, p := range sortedKeys(inv.logical(inv.Head)) {
			if !fs.ValidPath(p) {
				report("accepted", fmt.Sprintf("the new version %s contains the logical path %q", inv.Head, p))
				return
			}
		}
	}
}

// within tells whether p is one of the paths or below
func within(l []string, p string) bool {
	for _, o := range l {
		if p == o || strings.HasPrefix(p, o+"/") {
			return true
		}
	}
	return false
}

func (w *World) hostileExtract() {
	rng, r := w.rng, w.r
	t := readTree(w.dir)
	others := w.objectPaths(t)
	if len(others) == 0 {
		return
	}
	objPath := pick(rng, others)
	var m map[string]any
	ib := t[objPath+"/inventory.json"]
	inv, err := readInv(ib)
	if err != nil || json.Unmarshal(ib, &m) != nil {
		return
	}
	vs, _ := m["versions"].(map[string]any)
	ver := pick(rng, sortedKeys(vs))
	area := pick(rng, []string{"", "full", "content"})
	must := false
	hp := hostilePath(rng, others)
	class := pick(rng, []string{"state", "state", "state", "manifest", "config", "area", "version", "digest"})
	switch class {
	case "state":
		v, _ := vs[ver].(map[string]any)
		st, _ := v["state"].(map[string]any)
		ks := sortedKeys(st)
		if len(ks) == 0 {
			return
		}
		d := pick(rng, ks)
		l, _ := st[d].([]any)
		if rng.Intn(2) == 0 || len(l) == 0 {
			st[d] = append(l, hp)
		} else {
			l[rng.Intn(len(l))] = hp
		}
		must = hostileName(hp) && (w.cfg.Areas == nil || area == "full")
	case "manifest":
		mf, _ := m["manifest"].(map[string]any)
		for _, d := range sortedKeys(mf) {
			if rng.Intn(2) == 0 {
				mf[d] = []any{hp}
			}
		}
	case "digest":
		m["digestAlgorithm"] = hp
	case "config":
		n := 0
		for _, p := range sortedKeys(t) {
			if strings.HasPrefix(p, objPath+"/extensions/") && path.Base(p) == "config.json" {
				var v any
				if json.Unmarshal(t[p], &v) == nil {
					v, k := hostileCfg(rng, v, others)
					n += k
					t[p] = jsonBytes(v)
				}
			}
		}
		if n == 0 {
			return
		}
	case "area":
		area = hp
	case "version":
		if rng.Intn(2) == 0 {
			vs[hp] = vs[ver]
		}
		ver = hp
	}
	if b := jsonBytes(m); class != "config" && class != "area" && !bytes.Equal(b, ib) {
		set := map[string][]byte{}
		resign(set, t, objPath, "", b, inv.Digest)
		for p, c := range set {
			t[p] = c
		}
	}
	t = plantable(t)
	dir, undo := w.deepCopy(t)
	defer undo()
	top := w.tmpDir()
	defer os.RemoveAll(top)
	out := filepath.Join(top, "a/b/c/d/e/f/g/out")
	os.MkdirAll(out, 0755)
	os.WriteFile(filepath.Join(out, "../sentinel"), []byte("s"), 0644)
	rec, dst := NewRec(), NewRec()
	man := rng.Intn(2) == 0
	all := rng.Intn(4) == 0
	var res error
	res, pan := Guard(func() error {
		e, err := openRoot(dir, w.cfg, rec)
		if err != nil {
			return err
		}
		x, err := osfsrw.NewFS(out, nopLogger())
		if err != nil {
			return fmt.Errorf("harness: %w", err)
		}
		if rng.Intn(3) == 0 {
			e.SR.Stat(io.Discard, objPath, "", nil)
			e.SR.ExtractMeta(objPath, "")
			e.SR.CheckObjectByFolder(objPath)
		}
		if all {
			return e.SR.Extract(NewXFS(x, dst), "", "", ver, man, area)
		}
		return e.SR.Extract(NewXFS(x, dst), objPath, "", ver, man, area)
	})
	r.Case(fmt.Sprint("extract ", class, " ", hp, area, w.cfg.Label), true)
	r.Count("extract_"+class, 1)
	r.Count("mutations_observed", len(dst.Mutations))
	if res != nil {
		r.Count("extractions_refused", 1)
	}
	report := func(key, msg string) {
		w.bad = true
		r.Violate(key+":extract "+class, fmt.Sprintf("%s\n    %s: %q version %q area %q of %s returned %v %s (%s)", msg, class, hp, ver, area, objPath, res, pan, w.cfg.Label), map[string]any{"config": w.cfg, "hostile": hp, "class": class, "inventory": string(t[objPath+"/inventory.json"])})
	}
	if pan != "" {
		report("panic:"+panicSite(pan), "an extraction panicked: "+pan)
		return
	}
	if len(dst.Escapes)+len(rec.Escapes) > 0 {
		report("escape", fmt.Sprintf("calls leave the target: %v %v", first(dst.Escapes, 5), first(rec.Escapes, 5)))
		return
	}
	if len(rec.Mutations) > 0 {
		report("repository", fmt.Sprintf("an extraction changes the repository: %v", rec.Mutations[0]))
		return
	}
	for p := range readTree(top).files() {
		if !strings.HasPrefix(p, "a/b/c/d/e/f/g/out/") && p != "a/b/c/d/e/f/g/sentinel" {
			report("outside", "a file was written outside of the target: "+p)
			return
		}
	}
	if must && res == nil && !all {
		report("accepted", "a path that leads elsewhere was accepted")
	}
}
