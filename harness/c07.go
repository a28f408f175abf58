package main

// Hostile storage roots and read faults: nothing may panic, hang, end the process or overflow the stack.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"slices"
	"strings"

	"github.com/je4/filesystem/v3/pkg/osfsrw"
	"github.com/je4/gocfl/v2/pkg/ocfl"
)

func init() {
	register("C07", "exploration", "valid storage roots damaged by 1-4 random mutations (JSON nodes of inventories, layout files, extension configurations and extension data replaced, dropped, renamed, duplicated; bytes flipped, files truncated, emptied, exchanged, removed, replaced by directories; planted OCFL violations; read faults at a random call), then loaded, listed, validated, extracted, statted and asked for metadata; distinct = mutation classes x place x outcome", c07)
}

var weird = []any{nil, true, false, 0, 1, -1, 2.5, 1e300, float64(1 << 62), "", " ", "a", "..", "../../x", "/", "x#y/z", "http://x/y#frag", "%zz", "v1", "v0", "\x00", "ÿ", strings.Repeat("x", 3000), []any{}, []any{nil}, []any{""}, []any{1, "a"}, []any{[]any{}}, map[string]any{}, map[string]any{"": nil}, map[string]any{"": []any{""}}, map[string]any{"a": map[string]any{}}, map[string]any{"a": []any{nil}}, "md5", "sha512", "foo", "2020-01-01T00:00:00Z", "NNNN-gocfl-extension-manager", "0001-digest-algorithms", 1000000, -5, 33, 64}

// mutateJSON changes a random node of the value
func mutateJSON(rng *rand.Rand, v any) any {
	if rng.Intn(5) == 0 {
		return pick(rng, weird)
	}
	switch x := v.(type) {
	case map[string]any:
		if len(x) == 0 {
			x[pick(rng, []string{"", "a", "..", "extensionName"})] = pick(rng, weird)
			return x
		}
		k := pick(rng, sortedKeys(x))
		switch rng.Intn(8) {
		case 0:
			delete(x, k)
		case 1:
			x[pick(rng, []string{"", " ", ".", "..", "v9", "v01", "V1", "a/b", strings.ToUpper(k), k + "x", strings.Repeat("k", 200)})] = x[k]
			if rng.Intn(2) == 0 {
				delete(x, k)
			}
		case 2:
			x[k] = x[pick(rng, sortedKeys(x))]
		case 3:
			x[k] = pick(rng, weird)
		default:
			x[k] = mutateJSON(rng, x[k])
		}
		return x
	case []any:
		if len(x) == 0 {
			return []any{pick(rng, weird)}
		}
		i := rng.Intn(len(x))
		switch rng.Intn(5) {
		case 0:
			return append(x[:i:i], x[i+1:]...)
		case 1:
			return append(x, x[i])
		default:
			y := append([]any{}, x...)
			y[i] = mutateJSON(rng, x[i])
			return y
		}
	case string:
		switch rng.Intn(6) {
		case 0:
			return x + pick(rng, []string{"/", "/..", "x", " ", "\x00", "%", "\xff"})
		case 1:
			return pick(rng, []string{"../", "/", "./", "v", "0"}) + x
		case 2:
			if len(x) > 1 {
				return x[:rng.Intn(len(x))]
			}
		}
		return pick(rng, weird)
	}
	return pick(rng, weird)
}

func isJSON(p string) bool { return strings.HasSuffix(p, ".json") }

// hostile applies one random mutation to the tree
func hostile(rng *rand.Rand, v *vroot, t Tree) (class string) {
	files := []string{}
	jsons := []string{}
	meta := []string{}
	for _, p := range sortedKeys(t) {
		if strings.HasSuffix(p, "/") {
			continue
		}
		files = append(files, p)
		if isJSON(p) {
			jsons = append(jsons, p)
		}
		if isJSON(p) || strings.Contains(p, "inventory.json.") || strings.Contains(p, "0=ocfl") || strings.Contains(p, "extensions/") {
			meta = append(meta, p)
		}
	}
	if len(files) == 0 || len(meta) == 0 {
		return "none"
	}
	kind := func(p string) string {
		switch {
		case strings.Contains(p, "extensions/"):
			i := strings.Index(p, "extensions/")
			parts := strings.Split(p[i:], "/")
			w := "object "
			if i == 0 {
				w = "root "
			}
			return w + strings.Join(first(parts, 2), "/") + " " + path.Base(p)
		default:
			return path.Base(p)
		}
	}
	switch k := rng.Intn(20); {
	case k < 9 && len(jsons) > 0:
		// a change of a JSON document; sidecars of inventories are mostly kept right
		p := pick(rng, jsons)
		if rng.Intn(2) == 0 {
			var c []string
			for _, j := range jsons {
				if strings.Contains(j, "extensions/") || path.Base(j) == "ocfl_layout.json" {
					c = append(c, j)
				}
			}
			if len(c) > 0 {
				p = pick(rng, c)
			}
		}
		var x any
		if json.Unmarshal(t[p], &x) != nil {
			return "none"
		}
		x = mutateJSON(rng, x)
		var b bytes.Buffer
		enc := json.NewEncoder(&b)
		enc.SetEscapeHTML(false)
		if enc.Encode(x) != nil {
			return "none"
		}
		t[p] = b.Bytes()
		if path.Base(p) == "inventory.json" && rng.Intn(4) > 0 {
			dir := strings.TrimSuffix(p, "inventory.json")
			for _, q := range sortedKeys(t) {
				if strings.HasPrefix(q, p+".") {
					alg := strings.TrimPrefix(q, p+".")
					if newHash(alg) != nil {
						t[q] = []byte(digest(alg, t[p]) + " inventory.json\n")
					}
				}
			}
			if rng.Intn(2) == 0 {
				// the copy in the head version follows
				if m, ok := x.(map[string]any); ok {
					if h, ok := m["head"].(string); ok {
						if _, ok := t[dir+h+"/inventory.json"]; ok {
							t[dir+h+"/inventory.json"] = t[p]
						}
					}
				}
			}
		}
		return "json " + kind(p)
	case k < 11:
		p := pick(rng, meta)
		b := t[p]
		switch rng.Intn(6) {
		case 0:
			t[p] = []byte{}
		case 1:
			if len(b) > 0 {
				t[p] = b[:rng.Intn(len(b))]
			}
		case 2:
			if len(b) > 0 {
				t[p] = flipByte(rng, b)
			}
		case 3:
			t[p] = randBytes(rng, rng.Intn(300))
		case 4:
			t[p] = []byte(strings.Repeat(pick(rng, []string{"[", "{\"a\":", "\"", "9"}), 1+rng.Intn(20000)))
		case 5:
			t[p] = append([]byte{0xef, 0xbb, 0xbf}, b...)
		}
		return "bytes " + kind(p)
	case k < 13:
		p := pick(rng, files)
		if rng.Intn(2) == 0 {
			p = pick(rng, meta)
		}
		delete(t, p)
		return "remove " + kind(p)
	case k < 14:
		// a directory instead of a file
		p := pick(rng, meta)
		delete(t, p)
		t[p+"/"] = nil
		if rng.Intn(2) == 0 {
			t[p+"/x"] = []byte("x")
			delete(t, p+"/")
		}
		return "dir-for-file " + kind(p)
	case k < 15:
		// a file instead of a directory
		p := path.Dir(pick(rng, files))
		if p == "." {
			return "none"
		}
		if rng.Intn(2) == 0 && strings.Contains(p, "/") {
			p = path.Dir(p)
		}
		for q := range t {
			if strings.HasPrefix(q, p+"/") {
				delete(t, q)
			}
		}
		t[p] = []byte("file")
		return "file-for-dir"
	case k < 16:
		// remove a directory
		p := path.Dir(pick(rng, files))
		if p == "." {
			return "none"
		}
		for q := range t {
			if strings.HasPrefix(q, p+"/") {
				delete(t, q)
			}
		}
		return "removedir"
	case k < 17:
		// exchange the contents of two metadata files
		p, q := pick(rng, meta), pick(rng, meta)
		t[p], t[q] = t[q], t[p]
		return "exchange " + kind(p) + " " + kind(q)
	case k < 18:
		// an additional extension folder
		base := ""
		if rng.Intn(2) == 0 {
			base = pick(rng, v.objs) + "/"
		}
		n := pick(rng, []string{"0001-digest-algorithms", "0002-flat-direct-storage-layout", "0003-hash-and-id-n-tuple-storage-layout", "0004-hashed-n-tuple-storage-layout", "0006-flat-omit-prefix-storage-layout", "0007-n-tuple-omit-prefix-storage-layout", "NNNN-direct-clean-path-layout", "NNNN-content-subpath", "NNNN-metafile", "NNNN-filesystem", "NNNN-indexer", "NNNN-migration", "NNNN-thumbnail", "NNNN-mets", "NNNN-pairtree-storage-layout", "initial", "NNNN-gocfl-extension-manager", "unknown", "..x", "NNNN-path-direct"})
		cfg := map[string]any{"extensionName": n}
		for i := rng.Intn(4); i > 0; i-- {
			cfg[pick(rng, []string{"digestAlgorithm", "tupleSize", "numberOfTuples", "delimiter", "subPath", "folders", "storageType", "storageName", "name", "schema", "extension", "sort", "exclusion", "compress", "digestAlgorithms", "shortObjectRoot", "maxPathnameLen", "shortyLength", "uriBase", "zeroPadding", "reverseObjectRoot", "fallbackDigestAlgorithm", "numberOfFallbackTuples", "fallbackTupleSize", "ext", "background"})] = pick(rng, weird)
		}
		t[base+"extensions/"+n+"/config.json"] = jsonBytes(cfg)
		return "extension " + n
	default:
		// a planted violation of the OCFL rules
		m := (&vroot{t: t, cfg: v.cfg, objs: v.objs}).mutable(pick(rng, v.objs))
		if m == nil {
			return "none"
		}
		mu := pick(rng, mutators)
		ok := false
		Guard(func() error { ok = mu.fn(rng, m); return nil }) // the mutators expect sane documents
		if !ok {
			return "none"
		}
		for _, p := range sortedKeys(m.set) {
			if m.set[p] == nil {
				delete(t, m.obj+"/"+p)
			}
		}
		for _, p := range sortedKeys(m.set) {
			if m.set[p] != nil {
				t[m.obj+"/"+p] = m.set[p]
			}
		}
		return "rule " + mu.name
	}
}

// plantable removes entries that cannot exist together in a directory
func plantable(t Tree) Tree {
	r := Tree{}
	for p, b := range t {
		ok := len(p) < 3500 && !strings.ContainsRune(p, 0)
		for i, c := range p {
			if c == '/' && i < len(p)-1 {
				if _, isFile := t[p[:i]]; isFile {
					ok = false
				}
			}
		}
		for _, s := range strings.Split(strings.TrimSuffix(p, "/"), "/") {
			if s == "" || s == "." || s == ".." || len(s) > 250 {
				ok = false
			}
		}
		if strings.HasSuffix(p, "/") {
			if _, isFile := t[strings.TrimSuffix(p, "/")]; isFile {
				ok = false
			}
		}
		if ok {
			r[p] = b
		}
	}
	return r
}

// exercise runs all reading operations over the root. It returns the names of the operations that succeeded.
func exercise(rng *rand.Rand, v *vroot, dir, out string, rec *Rec, ids []string, call func(name string, fn func() error) bool) {
	var e *Env
	if !call("load", func() (err error) {
		e, err = openRoot(dir, v.cfg, rec)
		return
	}) {
		return
	}
	folders := append([]string{}, v.objs...)
	call("list", func() error {
		l, err := e.SR.GetObjectFolders()
		for i, f := range l {
			if i < 6 {
				folders = append(folders, f)
			}
		}
		return err
	})
	call("files", func() error {
		if _, err := e.SR.GetFiles(); err != nil {
			return err
		}
		_, err := e.SR.GetFolders()
		return err
	})
	call("check", func() error { return e.SR.Check() })
	seen := map[string]bool{}
	n := 0
	extract := func(p, id string) {
		for _, area := range []string{"", pick(rng, []string{"content", "metadata", "full", "data", "none"})} {
			for _, ver := range []string{"latest", pick(rng, []string{"v1", "v2", "v01", "", "v99", "x"})} {
				n++
				o := filepath.Join(out, fmt.Sprint(n))
				call("extract", func() error {
					os.MkdirAll(o, 0755)
					tfs, err := osfsrw.NewFS(o, nopLogger())
					if err != nil {
						return err
					}
					return e.SR.Extract(NewXFS(tfs, NewRec()), p, id, ver, rng.Intn(2) == 0, area)
				})
				os.RemoveAll(o)
			}
		}
	}
	for _, f := range folders {
		if seen[f] {
			continue
		}
		seen[f] = true
		call("checkfolder", func() error { return e.SR.CheckObjectByFolder(f) })
		var o ocfl.Object
		if call("loadfolder", func() (err error) { o, err = e.SR.LoadObjectByFolder(f); return }) && o != nil {
			call("metadata", func() error { _, err := o.GetMetadata(); return err })
			call("objectstat", func() error { return o.Stat(io.Discard, nil) })
			call("objectcheck", func() error { return o.Check() })
			call("inventory", func() error {
				inv := o.GetInventory()
				for vn := range inv.GetVersions() {
					if err := inv.IterateStateFiles(vn, func(i, x []string, d string) error { return nil }); err != nil {
						return err
					}
				}
				inv.GetFilesFlat()
				for _, a := range []string{"", "content", "x"} {
					o.GetAreaPath(a)
				}
				return nil
			})
		}
		call("extractmeta", func() error { _, err := e.SR.ExtractMeta(f, ""); return err })
		call("stat", func() error { return e.SR.Stat(io.Discard, f, "", nil) })
		extract(f, "")
	}
	for _, id := range ids {
		call("exists", func() error { _, err := e.SR.ObjectExists(id); return err })
		call("checkid", func() error { return e.SR.CheckObjectByID(id) })
		call("loadid", func() error { _, err := e.SR.LoadObjectByID(id); return err })
		call("extractmetaid", func() error { _, err := e.SR.ExtractMeta("", id); return err })
		call("statid", func() error { return e.SR.Stat(io.Discard, "", id, nil) })
	}
	call("statall", func() error { return e.SR.Stat(io.Discard, "", "", nil) })
	call("status", func() error {
		st, err := ocfl.GetValidationStatus(e.Ctx)
		if err != nil {
			return err
		}
		for _, s := range st.Errors {
			_ = s.Error() + s.DetailString()
		}
		st.Compact()
		return nil
	})
}

func c07(r *Run) {
	r.Assume = []string{"named pipes, devices and endless directory loops are not planted", "memory exhaustion by documents of several hundred megabytes is not explored"}
	per := r.N(8, 20)
	validRoots(r, "c07", r.N(150, 2500), r.N(350, 6000), func(rng *rand.Rand, v *vroot) {
		var ids []string
		for _, o := range v.objs {
			if inv, err := readInv(v.t[o+"/inventory.json"]); err == nil {
				ids = append(ids, inv.ID)
			}
		}
		ids = append(ids, pick(rng, []string{"", "..", "unknown", "a/../../b", "\xff", strings.Repeat("i", 600)}))
		dir := filepath.Join(r.Scratch, fmt.Sprintf("c07-%d", rng.Int63()))
		defer os.RemoveAll(dir)
		for k := 0; k < per; k++ {
			t := v.t.clone()
			var classes []string
			for i := 1 + rng.Intn(4)*rng.Intn(2); i > 0; i-- {
				if c := hostile(rng, v, t); c != "none" {
					classes = append(classes, c)
				}
			}
			t = plantable(t)
			root := filepath.Join(dir, fmt.Sprint("a/b/c/d/", k))
			if err := writeTree(root, t); err != nil {
				os.RemoveAll(root)
				r.Count("not_plantable", 1)
				continue
			}
			rec := NewRec()
			if rng.Intn(3) == 0 {
				// read faults: one call or all calls from one on
				at := 1 + rng.Intn(200)
				all := rng.Intn(2) == 0
				werr := pick(rng, []error{errInjected, fs.ErrPermission, fs.ErrNotExist, io.ErrUnexpectedEOF})
				rec.Fault = func(n int, op, p string) error {
					if n == at || all && n > at {
						return werr
					}
					return nil
				}
				classes = append(classes, fmt.Sprintf("readfault all=%v %v", all, werr))
			}
			outcome := ""
			stop := false
			exercise(rng, v, root, filepath.Join(dir, "a/b/c/out"), rec, ids, func(name string, fn func() error) bool {
				if stop {
					return false
				}
				err, p := Guard(fn)
				r.Count("op_"+name, 1)
				if p != "" {
					stop = true
					key := "panic:" + panicSite(p)
					r.Violate(key, fmt.Sprintf("%s panics on a storage root with %v (%s): %s", name, classes, v.feat, p), map[string]any{"operation": name, "mutations": classes, "root": v.feat, "tree": renderTree(t)})
					return false
				}
				if err != nil {
					outcome += "," + name
					r.Count("errors_returned", 1)
				}
				return err == nil
			})
			if len(rec.Escapes) > 0 {
				r.Count("escaping_writes_refused", 1)
			}
			if rec.FaultHit {
				r.Count("read_faults_hit", 1)
			}
			for _, c := range classes {
				r.Count("mut_"+strings.Fields(c)[0], 1)
			}
			r.Case(strings.Join(classes, "|")+outcome, len(classes) > 0)
			os.RemoveAll(root)
		}
	})
	c07configs(r)
}

// c07configs: configurations of extensions with single wrong values are refused or work, but never crash
func c07configs(r *Run) {
	names := append(append([]string{}, layoutNames...), "NNNN-content-subpath", "NNNN-filesystem", "NNNN-metafile", "NNNN-indexer", "NNNN-migration", "NNNN-thumbnail", "NNNN-mets", "0001-digest-algorithms")
	wrong := func(rng *rand.Rand, e ExtSpec) (ExtSpec, string) {
		var keys []string
		for _, k := range sortedKeys(e.Cfg) {
			if k != "extensionName" {
				keys = append(keys, k)
			}
		}
		if len(keys) == 0 {
			return e, "none"
		}
		desc := ""
		for n := 1 + rng.Intn(3)/2; n > 0; n-- {
			k := pick(rng, keys)
			var v any
			switch rng.Intn(4) {
			case 0:
				delete(e.Cfg, k)
				desc += fmt.Sprintf("without %s ", k)
				continue
			case 1:
				switch e.Cfg[k].(type) {
				case string:
					v = pick(rng, []string{"", "foo", "md4", "SHA-512", "sha512/256", " ", "zip", "left ", "..", "../x", "/", "a/b", "\x00", strings.Repeat("y", 300), "%d", "\xff"})
				case int:
					v = pick(rng, []int{0, -1, 1, 2, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 1000, 1 << 31, -1 << 31, 1 << 40, 1<<63 - 1, -1 << 63})
				default:
					v = pick(rng, weird)
				}
			default:
				v = pick(rng, weird)
			}
			e.Cfg[k] = v
			desc += fmt.Sprintf("%s=%s ", k, clip(fmt.Sprintf("%#v", v), 60))
		}
		return e, desc
	}
	ids := func(rng *rand.Rand) []string {
		l := []string{"", ".", "..", "a", "obj", "urn:x:1", "info:fedora/a:b", strings.Repeat("i", 70), strings.Repeat("long ", 90), strings.Repeat("d/", 80) + "f", "\xff\xfe", "a b\tc", "ü/日本語", "=u0041"}
		for i := 0; i < 3; i++ {
			id, _ := genID(rng)
			l = append(l, id)
		}
		return l
	}
	r.Parallel(r.N(6000, 120000), func(i int) {
		rng := r.Rng("c07cfg", i)
		name := names[i%len(names)]
		spec, desc := wrong(rng, genExtSpec(rng, name))
		rep := map[string]any{"extension": name, "config": fmt.Sprintf("%#v", spec.Cfg)}
		op := "load"
		loaded := false
		_, p := Guard(func() error {
			f, err := newFactory(&Cfg{})
			if err != nil {
				return err
			}
			m, err := f.LoadExtensions(NewMemFS(extFiles([]ExtSpec{spec})), nil)
			if err != nil {
				return err
			}
			loaded = true
			for _, id := range ids(rng) {
				r.Count("configured_paths", 1)
				op = fmt.Sprintf("storage root path of %+q", clip(id, 80))
				m.BuildStorageRootPath(nil, id)
				for _, area := range []string{"", "content", "metadata", "full", "none"} {
					op = fmt.Sprintf("paths of %+q in area %q", clip(id, 80), area)
					m.BuildObjectManifestPath(nil, id, area)
					m.BuildObjectStatePath(nil, id, area)
					m.BuildObjectExtractPath(nil, id, area)
					m.GetAreaPath(nil, area)
				}
			}
			return nil
		})
		if p != "" {
			r.Violate("panic:"+panicSite(p), fmt.Sprintf("%s with %s: %s panics: %s", name, desc, op, p), rep)
		}
		r.Case(fmt.Sprintf("config %s %s %v", name, desc, loaded), desc != "none")
		if loaded {
			r.Count("configs_loaded", 1)
		} else {
			r.Count("configs_refused", 1)
		}
	})
	// the same in use
	r.Parallel(r.N(400, 8000), func(i int) {
		rng := r.Rng("c07cfguse", i)
		name := names[rng.Intn(len(names))]
		spec, desc := wrong(rng, genExtSpec(rng, name))
		cfg := &Cfg{Ver: "1.1", Digest: "sha512", Dedup: rng.Intn(2) == 0, Layout: "0002", Root: []ExtSpec{ext("0002-flat-direct-storage-layout")}, Params: map[string]string{}}
		if slices.Contains(layoutNames, name) && rng.Intn(2) == 0 {
			cfg.Root = []ExtSpec{spec}
		} else {
			cfg.Obj = []ExtSpec{spec}
		}
		dir := filepath.Join(r.Scratch, fmt.Sprintf("c07cfg%d/a/b/c/d/e", i))
		os.MkdirAll(dir, 0755)
		defer os.RemoveAll(filepath.Join(r.Scratch, fmt.Sprintf("c07cfg%d", i)))
		out := ""
		call := func(op string, fn func() error) bool {
			err, p := Guard(fn)
			if p != "" {
				r.Violate("panic:"+panicSite(p), fmt.Sprintf("%s with %s: %s panics: %s", name, desc, op, p), map[string]any{"extension": name, "config": fmt.Sprintf("%#v", spec.Cfg)})
			}
			out += fmt.Sprintf(" %s=%v", op, err == nil)
			return err == nil && p == ""
		}
		var e *Env
		if call("create", func() (err error) { e, err = createRoot(dir, cfg, NewRec()); return }) {
			for n := 0; n < 2; n++ {
				u := genUpdHead(rng)
				u.Dedup = cfg.Dedup
				u.Ops = []Op{{Kind: "folder", Src: map[string][]byte{"a.txt": []byte("x"), "sub/" + strings.Repeat("n", 150) + " o": []byte("y"), "sub/b (1).txt": []byte(fmt.Sprint(n))}}}
				if !call("update", func() error { return e.update("obj", u) }) {
					break
				}
				if !call("open", func() (err error) { e, err = openRoot(dir, cfg, NewRec()); return }) {
					break
				}
				call("check", func() error { return e.SR.Check() })
				call("metadata", func() error {
					o, err := e.SR.LoadObjectByID("obj")
					if err != nil {
						return err
					}
					_, err = o.GetMetadata()
					return err
				})
			}
		}
		r.Count("configs_used", 1)
		r.Case("use "+name+" "+desc+out, desc != "none")
	})
}
