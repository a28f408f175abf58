package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/je4/gocfl/v2/pkg/ocfl"
	"github.com/je4/gocfl/v2/pkg/subsystem/migration"
	"github.com/je4/gocfl/v2/pkg/subsystem/thumbnail"
)

func init() {
	register("C09", "exploration", "random extension set with random parameters for a root and its objects; non-trivial when at least one parameter differs from its default. Every parameter is searched in the stored configuration, and a reloaded root/object is compared with the one that was configured: effective configuration and every path mapping over a set of identifiers and paths", c09)
}

// lowerKeys are parameters whose value is an enumeration that may be stored in another case
var lowerKeys = map[string]bool{"storagetype": true, "compress": true, "actions": true, "ext": true, "digestalgorithm": true}

// genExtSpec draws a valid configuration of the extension: now and then with parameters left to their default
// and with values at the edge of their range
func genExtSpec(rng *rand.Rand, name string) ExtSpec {
	e := genExtSpecFull(rng, name)
	switch name {
	case "0003-hash-and-id-n-tuple-storage-layout", "0004-hashed-n-tuple-storage-layout":
		switch rng.Intn(6) {
		case 0:
			e.Cfg["tupleSize"], e.Cfg["numberOfTuples"] = 0, 0
		case 1:
			delete(e.Cfg, pick(rng, []string{"digestAlgorithm", "tupleSize", "numberOfTuples"}))
		case 2:
			e.Cfg["tupleSize"], e.Cfg["numberOfTuples"] = 8, 4
		}
	case "0007-n-tuple-omit-prefix-storage-layout":
		if rng.Intn(4) == 0 {
			delete(e.Cfg, pick(rng, []string{"zeroPadding", "tupleSize", "numberOfTuples", "reverseObjectRoot"}))
		}
	case "NNNN-direct-clean-path-layout":
		switch rng.Intn(6) {
		case 0:
			// names of older versions
			delete(e.Cfg, "maxPathnameLen")
			delete(e.Cfg, "numberOfFallbackTuples")
			return e.with("maxFilenameLen", 200+rng.Intn(300), "fallbackSubdirs", 1+rng.Intn(4))
		case 1:
			for _, k := range sortedKeys(e.Cfg) {
				if k != "extensionName" && rng.Intn(2) == 0 {
					delete(e.Cfg, k)
				}
			}
		}
	case "NNNN-pairtree-storage-layout":
		if rng.Intn(4) == 0 {
			delete(e.Cfg, pick(rng, []string{"uriBase", "storeDir"}))
		}
	}
	return e
}

func (e ExtSpec) with(kv ...any) ExtSpec {
	for i := 0; i+1 < len(kv); i += 2 {
		e.Cfg[kv[i].(string)] = kv[i+1]
	}
	return e
}

func genExtSpecFull(rng *rand.Rand, name string) ExtSpec {
	stType := func() string { return pick(rng, []string{"area", "path", "extension"}) }
	comp := func() string { return pick(rng, []string{"none", "gzip", "brotli"}) }
	alg := func() string { return pick(rng, []string{"sha256", "sha512", "md5", "sha1"}) }
	word := func() string { return pick(rng, []string{"metadata", "x", "Größe", "a b", "<&>", "deep"}) }
	switch name {
	case "0003-hash-and-id-n-tuple-storage-layout":
		return ext(name, "digestAlgorithm", alg(), "tupleSize", 1+rng.Intn(5), "numberOfTuples", 1+rng.Intn(6))
	case "0004-hashed-n-tuple-storage-layout":
		return ext(name, "digestAlgorithm", alg(), "tupleSize", 1+rng.Intn(5), "numberOfTuples", 1+rng.Intn(6), "shortObjectRoot", rng.Intn(2) == 0)
	case "0006-flat-omit-prefix-storage-layout":
		return ext(name, "delimiter", pick(rng, []string{":", "/", "edu/", "urn:", "ü", "&<>", "\\", "\""}))
	case "0007-n-tuple-omit-prefix-storage-layout":
		return ext(name, "delimiter", pick(rng, []string{":", "edu/", "ü", "&"}), "tupleSize", 1+rng.Intn(5), "numberOfTuples", 1+rng.Intn(5), "zeroPadding", pick(rng, []string{"left", "right"}), "reverseObjectRoot", rng.Intn(2) == 0)
	case "NNNN-pairtree-storage-layout":
		return ext(name, "uriBase", pick(rng, []string{"", "info:", "https://x/"}), "storeDir", pick(rng, []string{"", "store", "a/b"}), "shortyLength", 1+rng.Intn(5), "digestAlgorithm", alg())
	case "NNNN-direct-clean-path-layout":
		return ext(name, "maxPathnameLen", 200+rng.Intn(32000), "maxPathSegmentLen", 20+rng.Intn(200), "replacementString", pick(rng, []string{"_", "-", "", "xx", "ü"}), "whitespaceReplacementString", pick(rng, []string{" ", "_", "", "--"}), "utfEncode", rng.Intn(2) == 0,
			"fallbackDigestAlgorithm", alg(), "fallbackFolder", pick(rng, []string{"fallback", "long", "f/g"}), "fallbackTupleSize", 1+rng.Intn(4), "numberOfFallbackTuples", rng.Intn(5))
	case "NNNN-content-subpath":
		m := map[string]any{"content": map[string]any{"path": pick(rng, []string{"data", "payload", "a/b"}), "description": word()}}
		m["metadata"] = map[string]any{"path": "meta" + fmt.Sprint(rng.Intn(9)), "description": word()}
		for _, a := range []string{"extra", "Übrig", "Mixed Case"} {
			if rng.Intn(2) == 0 {
				m[a] = map[string]any{"path": fmt.Sprintf("p%d/%c", rng.Intn(9), 'a'+rune(len(m))), "description": word()}
			}
		}
		return ext(name, "subPath", m)
	case "NNNN-filesystem":
		return ext(name, "folders", pick(rng, []string{"", ".keep", "keep.me"}), "storageType", stType(), "storageName", "metadata", "compress", comp())
	case "NNNN-metafile":
		e := ext(name, "storageType", stType(), "storageName", "metadata", "name", pick(rng, []string{"info.json", "meta.json"}), "schema", pick(rng, []string{"schema.json", "s.json"}), "schemaUrl", pick(rng, []string{"http://example.org/schema.json", "https://x.y/z"}))
		e.Files = map[string]string{e.Cfg["schema"].(string): fmt.Sprintf(`{"type":"object","title":"t%d","properties":{"a":{"type":"integer"}}}`, rng.Intn(100))}
		return e
	case "NNNN-indexer":
		return ext(name, "StorageType", stType(), "StorageName", "metadata", "Actions", pick(rng, [][]string{{"siegfried"}, {"siegfried", "xml"}, {}}), "Compress", comp())
	case "NNNN-migration":
		return ext(name, "StorageType", stType(), "StorageName", "metadata", "Compress", comp())
	case "NNNN-thumbnail":
		return ext(name, "compress", comp(), "shortFilename", rng.Intn(2) == 0, "ext", pick(rng, []string{"png", "jpg"}), "width", 1+rng.Intn(500), "height", 1+rng.Intn(500), "singleDirectory", rng.Intn(2) == 0, "storageType", stType(), "storageName", "metadata")
	case "NNNN-mets":
		return ext(name, "storageType", stType(), "storageName", "metadata", "primaryDescriptiveMetadata", pick(rng, []string{"metadata:info.json", "x:y"}), "metsFile", pick(rng, []string{"mets.xml", "m.xml"}), "premisFile", pick(rng, []string{"premis.xml", "p.xml"}))
	}
	return ext(name)
}

var layoutNames = []string{"0002-flat-direct-storage-layout", "0003-hash-and-id-n-tuple-storage-layout", "0004-hashed-n-tuple-storage-layout", "0006-flat-omit-prefix-storage-layout", "0007-n-tuple-omit-prefix-storage-layout", "NNNN-pairtree-storage-layout", "NNNN-direct-clean-path-layout", "NNNN-direct-path-layout"}
var hookNames = []string{"StorageRootPath", "ObjectContentPath", "ObjectExtractPath", "ObjectExternalPath", "ContentChange", "ObjectChange", "FixityDigest", "Metadata", "Area", "Stream", "NewVersion"}

// genMgr draws a sort and exclusion configuration over the given names. Extensions that exchange data with
// others (indexer, mets, areas) keep the default order and stay active.
func genMgr(rng *rand.Rand, names []string) []ExtSpec {
	sort := map[string][]string{}
	excl := map[string][][]string{}
	heavy := false
	for _, n := range names {
		heavy = heavy || n == "NNNN-indexer" || n == "NNNN-mets" || n == "NNNN-content-subpath"
	}
	for _, h := range hookNames {
		if heavy && h == "ObjectChange" {
			continue
		}
		if rng.Intn(3) == 0 {
			l := append([]string{}, names...)
			rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
			sort[h] = l[:rng.Intn(len(l)+1)]
		}
		if rng.Intn(5) == 0 && len(names) > 1 && !heavy {
			l := append([]string{}, names...)
			rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
			k := 1 + rng.Intn(len(l)-1)
			excl[h] = [][]string{l[:k], append(l[k:], "not-there")}
		}
	}
	return mgrSpecs(sort, excl)
}

func normJSON(v any) any {
	b, _ := json.Marshal(v)
	var r any
	json.Unmarshal(b, &r)
	return r
}

func zeroJSON(v any) bool {
	switch x := v.(type) {
	case nil:
		return true
	case bool:
		return !x
	case float64:
		return x == 0
	case string:
		return x == ""
	case []any:
		return len(x) == 0
	case map[string]any:
		return len(x) == 0
	}
	return false
}

// lookupCI finds the key in any case
func lookupCI(m map[string]any, key string) (any, bool) {
	if v, ok := m[key]; ok {
		return v, true
	}
	for k, v := range m {
		if strings.EqualFold(k, key) {
			return v, true
		}
	}
	return nil, false
}

func eqParam(key string, want, got any) bool {
	if reflect.DeepEqual(want, got) {
		return true
	}
	if lowerKeys[strings.ToLower(key)] {
		return strings.EqualFold(fmt.Sprint(want), fmt.Sprint(got))
	}
	if wm, ok := want.(map[string]any); ok {
		// sort and exclusion of the manager: entries of hooks without content may be missing
		gm, ok := got.(map[string]any)
		if !ok {
			return false
		}
		for k, v := range wm {
			if g, ok := gm[k]; (!ok || !reflect.DeepEqual(v, g)) && !(zeroJSON(v) && zeroJSON(g)) {
				return false
			}
		}
		return len(gm) <= len(wm)
	}
	return false
}

// storedParams compares the stored configurations with the given ones
func storedParams(t Tree, dir string, exts []ExtSpec) (errs []string) {
	for _, e := range exts {
		p := path.Join(dir, e.Name, "config.json")
		b, ok := t[p]
		if !ok {
			errs = append(errs, fmt.Sprintf("%s: no stored configuration (%s)", e.Name, p))
			continue
		}
		var m map[string]any
		if err := json.Unmarshal(b, &m); err != nil {
			errs = append(errs, fmt.Sprintf("%s: stored configuration is no JSON object: %v", e.Name, err))
			continue
		}
		want := normJSON(e.Cfg).(map[string]any)
		for _, k := range sortedKeys(want) {
			g, ok := lookupCI(m, k)
			if alias, old := map[string]string{"maxFilenameLen": "maxPathnameLen", "fallbackSubdirs": "numberOfFallbackTuples"}[k]; old && !ok {
				g, ok = lookupCI(m, alias)
			}
			if !ok {
				if !zeroJSON(want[k]) {
					errs = append(errs, fmt.Sprintf("%s: parameter %q is not stored", e.Name, k))
				}
				continue
			}
			if !eqParam(k, want[k], g) && !(zeroJSON(want[k]) && zeroJSON(g)) {
				errs = append(errs, fmt.Sprintf("%s: parameter %q stored as %s instead of %s", e.Name, k, jsonBytes(g), jsonBytes(want[k])))
			}
		}
		for _, f := range sortedKeys(e.Files) {
			if string(t[path.Join(dir, e.Name, f)]) != e.Files[f] {
				errs = append(errs, fmt.Sprintf("%s: file %s is not stored unchanged", e.Name, f))
			}
		}
	}
	return
}

func keysOf(errs []string) string {
	if len(errs) == 0 {
		return ""
	}
	return clip(strings.SplitN(errs[0], " stored as", 2)[0], 100)
}

// effective describes the active configuration of a manager
func effective(m ocfl.ExtensionManager) (map[string]string, error) {
	res := map[string]string{}
	b, err := json.Marshal(m.GetConfig())
	if err != nil {
		return nil, err
	}
	res[m.GetName()] = canonJSON(b)
	for _, e := range m.GetExtensions() {
		b, err := json.Marshal(e.GetConfig())
		if err != nil {
			return nil, err
		}
		res[e.GetName()] = canonJSON(b)
		c, err := m.GetConfigName(e.GetName())
		if err != nil {
			return nil, err
		}
		if b2, _ := json.Marshal(c); string(b2) != string(b) {
			return nil, fmt.Errorf("GetConfigName(%s) differs from GetConfig()", e.GetName())
		}
	}
	return res, nil
}

func canonJSON(b []byte) string {
	var v any
	json.Unmarshal(b, &v)
	b, _ = json.Marshal(v)
	return string(b)
}

func mapDiff(a, b map[string]string) (d []string) {
	for _, k := range sortedKeys(a) {
		if x, ok := b[k]; !ok {
			d = append(d, k+": gone")
		} else if x != a[k] {
			d = append(d, fmt.Sprintf("%s: %q became %q", k, clip(a[k], 400), clip(x, 400)))
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok {
			d = append(d, k+": new ("+clip(b[k], 200)+")")
		}
	}
	return
}

var mapPaths = []string{"a.txt", "dir/b c.txt", "ü/ä.txt", "q?<>.x", "=u1/~", strings.Repeat("seg", 60) + "/x", strings.Repeat("p/", 60) + "end", ".", "metadata/x", "a:b/c*d", "tab\t", "  sp  /..x"}

// objMapping evaluates every path mapping of an object
func objMapping(o ocfl.Object, m ocfl.ExtensionManager, areas []string) map[string]string {
	res := map[string]string{}
	put := func(k string, v any, err error) {
		if err != nil {
			res[k] = "error " + errSummary(err)
			return
		}
		res[k] = fmt.Sprint(v)
	}
	for _, a := range areas {
		for _, p := range mapPaths {
			v, err := m.BuildObjectManifestPath(o, p, a)
			put("manifest "+a+" "+p, v, err)
			v, err = m.BuildObjectStatePath(o, p, a)
			put("state "+a+" "+p, v, err)
			v, err = m.BuildObjectExtractPath(o, p, a)
			put("extract "+a+" "+p, v, err)
		}
		v, err := m.GetAreaPath(o, a)
		put("area "+a, v, err)
	}
	res["fixity"] = fmt.Sprint(m.GetFixityDigests())
	return res
}

func c09Cfg(rng *rand.Rand, metaSrc string) *Cfg {
	c := &Cfg{Ver: pick(rng, []string{"1.0", "1.1"}), Digest: pick(rng, []string{"sha512", "sha256"}), Dedup: true}
	// root: one or several layouts, and whatever else
	names := append([]string{}, layoutNames...)
	rng.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	n := 1
	if rng.Intn(3) == 0 {
		n = 2 + rng.Intn(2)
	}
	for _, l := range names[:n] {
		c.Root = append(c.Root, genExtSpec(rng, l))
	}
	if rng.Intn(4) == 0 {
		c.Root = append(c.Root, ext("0001-digest-algorithms"))
	}
	if rng.Intn(4) != 0 {
		c.Root = append(c.Root, genMgr(rng, names[:n])...)
	}
	c.Layout = names[0]
	// object
	var objNames []string
	add := func(name string, p int) {
		if rng.Intn(p) == 0 {
			e := genExtSpec(rng, name)
			c.Obj = append(c.Obj, e)
			objNames = append(objNames, name)
			if name == "NNNN-content-subpath" {
				c.Areas = map[string]string{}
				for a, v := range e.Cfg["subPath"].(map[string]any) {
					c.Areas[a] = v.(map[string]any)["path"].(string)
				}
			}
		}
	}
	add("0001-digest-algorithms", 2)
	add("NNNN-direct-clean-path-layout", 2)
	add("NNNN-direct-path-layout", 3)
	add("NNNN-content-subpath", 2)
	if rng.Intn(5) == 0 {
		// METS needs the primary descriptive metadata
		c.Areas = map[string]string{"content": "data", "metadata": "meta", "extra": "x/y"}
		var o []ExtSpec
		for _, e := range c.Obj {
			if e.Name != "NNNN-content-subpath" {
				o = append(o, e)
			} else {
				c.Areas = map[string]string{}
				for a, v := range e.Cfg["subPath"].(map[string]any) {
					c.Areas[a] = v.(map[string]any)["path"].(string)
				}
			}
		}
		mf := genExtSpec(rng, "NNNN-metafile")
		mf.Cfg["storageType"] = "area"
		me := genExtSpec(rng, "NNNN-mets")
		me.Cfg["storageType"] = "area"
		me.Cfg["primaryDescriptiveMetadata"] = "info:metadata:" + mf.Cfg["name"].(string)
		c.Obj = append(o, csp(c.Areas), mf, me)
		objNames = append(objNames, "NNNN-content-subpath", "NNNN-metafile", "NNNN-mets")
		if rng.Intn(2) == 0 {
			c.Obj = append(c.Obj, genExtSpec(rng, "NNNN-indexer"))
			objNames = append(objNames, "NNNN-indexer")
		}
	} else {
		for _, x := range []string{"NNNN-filesystem", "NNNN-metafile", "NNNN-indexer", "NNNN-migration", "NNNN-thumbnail"} {
			add(x, 3)
		}
	}
	for i := range c.Obj {
		if c.Areas == nil {
			// without areas only extension storage is possible
			for k := range c.Obj[i].Cfg {
				if strings.EqualFold(k, "storageType") {
					c.Obj[i].Cfg[k] = "extension"
				}
			}
		}
	}
	if rng.Intn(5) == 0 {
		for _, l := range names[:2] {
			found := false
			for _, e := range c.Obj {
				found = found || e.Name == l
			}
			if !found {
				c.Obj = append(c.Obj, genExtSpec(rng, l))
				objNames = append(objNames, l)
			}
		}
	}
	if rng.Intn(4) != 0 && len(objNames) > 0 {
		c.Obj = append(c.Obj, genMgr(rng, objNames)...)
	}
	c.Params = map[string]string{"ext-NNNN-metafile-source": metaSrc}
	c.Indexer = newIndexer(nil, "siegfried", "xml")
	c.Migration = &migration.Migration{Functions: map[string]*migration.Function{}}
	c.Thumb = &thumbnail.Thumbnail{Functions: map[string]*thumbnail.Function{}}
	c.Label = fmt.Sprintf("%s root%d/%s obj%v", c.Ver, n, c.Layout, objNames)
	return c
}

// idsFor: identifiers used to compare path mappings
func c09IDs(rng *rand.Rand) []string {
	ids := []string{"a", "http://example.org/x", "info:fedora/ü", "urn:x:y:z", "edu/a/b", "ark:/12345/x", strings.Repeat("k", 120), "Größe 1", "..", "a:", ""}
	for i := 0; i < 12; i++ {
		b := make([]rune, 1+rng.Intn(20))
		for j := range b {
			b[j] = pick(rng, []rune("abcXYZ019:/ü&<>~^%. _-\"\\"))
		}
		ids = append(ids, string(b))
	}
	return ids
}

func c09(r *Run) {
	r.Assume = []string{"configurations are valid (values the extension accepts)", "enumerations (storageType, compress, actions, ext) may be stored in lower case, keys in any case"}
	r.Parallel(r.N(400, 6000), func(i int) {
		rng := r.Rng("c09", i)
		tmp := filepath.Join(r.Scratch, fmt.Sprintf("c09-%d", i))
		defer os.RemoveAll(tmp)
		os.MkdirAll(filepath.Join(tmp, "src"), 0755)
		metaSrc := filepath.Join(tmp, "src", "info.json")
		os.WriteFile(metaSrc, []byte(`{"a": 1}`), 0644)
		c := c09Cfg(rng, "file://"+metaSrc)
		dir := filepath.Join(tmp, "root")
		viol := func(key, f string, a ...any) {
			r.Violate(key, fmt.Sprintf(f, a...)+"\n    config: "+string(jsonBytes(map[string]any{"root": c.Root, "object": c.Obj})), map[string]any{"config": c.Label, "root": c.Root, "obj": c.Obj})
		}
		fail := func(what string, err error, p string) bool {
			if p != "" {
				viol("op-panic:"+panicSite(p), "%s panicked: %s", what, p)
			} else if err != nil {
				viol("op-error:"+what+":"+errSummary(err), "%s failed: %v", what, err)
			}
			return p != "" || err != nil
		}
		var env *Env
		var mgr ocfl.ExtensionManager
		err, p := Guard(func() (err error) {
			os.MkdirAll(dir, 0755)
			if env, err = baseEnv(dir, c, nil); err != nil {
				return
			}
			if mgr, err = env.Factory.LoadExtensions(NewMemFS(extFiles(c.Root)), nil); err != nil {
				return
			}
			env.SR, err = ocfl.CreateStorageRoot(env.Ctx, env.FS, c.ver(), env.Factory, mgr, c.dig(), nopLogger())
			return
		})
		if fail("init", err, p) {
			return
		}
		t := readTree(dir)
		if errs := storedParams(t, "extensions", c.Root); len(errs) > 0 {
			viol("root-param:"+keysOf(errs), "configuration of the storage root is not stored: %v", errs)
		}
		r.Count("configurations_compared", len(c.Root))
		ids := c09IDs(rng)
		mapRoot := func(sr ocfl.StorageRoot, m ocfl.ExtensionManager) map[string]string {
			res := map[string]string{}
			for _, id := range ids {
				pth, err := m.BuildStorageRootPath(sr, id)
				if err != nil {
					res[id] = "error " + errSummary(err)
				} else {
					res[id] = pth
				}
			}
			r.Count("root_mappings_compared", len(ids))
			return res
		}
		var rootMap map[string]string
		var rootEff map[string]string
		err, p = Guard(func() (err error) { rootMap = mapRoot(env.SR, mgr); rootEff, err = effective(mgr); return })
		if fail("map", err, p) {
			return
		}
		if env.SR.GetVersion() != c.ver() {
			viol("root-version", "version %v", env.SR.GetVersion())
		}
		reloadRoot := func(n int) bool {
			var d1, d2 []string
			err, p := Guard(func() error {
				e, err := openRoot(dir, c, nil)
				if err != nil {
					return err
				}
				sub, err := osSub(dir, "extensions")
				if err != nil {
					return err
				}
				m, err := e.Factory.LoadExtensions(sub, nil)
				if err != nil {
					return err
				}
				d1 = mapDiff(rootMap, mapRoot(e.SR, m))
				eff, err := effective(m)
				if err != nil {
					return err
				}
				d2 = mapDiff(rootEff, eff)
				env = e
				return nil
			})
			if fail("reload", err, p) {
				return false
			}
			if len(d1) > 0 {
				viol("root-mapping:"+c.Layout, "reload %d: identifiers are mapped differently: %v", n, first(d1, 5))
			}
			if len(d2) > 0 {
				viol("root-config:"+strings.SplitN(d2[0], ":", 2)[0], "reload %d: the effective configuration changed: %v", n, d2)
			}
			return true
		}
		if !reloadRoot(1) {
			return
		}
		// an object: identifier that the layout accepts, its folder must not leave the root
		// objects whose identifiers the layouts map to a usable location
		var oids []string
		var opaths []string
		for _, id := range append([]string{"urn:x:edu/obj1", "info:ü:edu/x&obj2", "obj3"}, ids...) {
			pth, perr := mgr.BuildStorageRootPath(env.SR, id)
			if perr != nil || badPath(pth) || pth == "extensions" || strings.HasPrefix(pth, "extensions/") || len(pth) > 900 || hasLongSeg(pth) || strings.HasPrefix(pth, "0=") || pth == "ocfl_layout.json" || strings.HasSuffix(pth, ".md") || strings.HasPrefix(pth, "ocfl_") {
				continue
			}
			ok := true
			for _, q := range opaths {
				ok = ok && q != pth && !strings.HasPrefix(q, pth+"/") && !strings.HasPrefix(pth, q+"/")
			}
			if !ok || id == "" {
				continue
			}
			oids = append(oids, id)
			opaths = append(opaths, pth)
			if len(oids) >= 3 {
				break
			}
		}
		areas := []string{""}
		if c.Areas != nil {
			areas = append(areas, append(sortedKeys(c.Areas), "full", "nix")...)
		}
		for k, id := range oids {
			var o ocfl.Object
			var om ocfl.ExtensionManager
			var eff map[string]string
			src := map[string][]byte{"a.txt": []byte("one " + id), "dir/b c.txt": []byte("two"), "ü/x?.bin": randBytes(rng, 50)}
			srcDir := filepath.Join(tmp, fmt.Sprintf("s%d", k))
			writeTree(srcDir, Tree(src))
			u := genUpdHead(rng)
			u.Ops = []Op{{Kind: "folder", Src: src, SrcDir: srcDir}}
			var omap map[string]string
			err, p := Guard(func() (err error) {
				if om, err = env.objManager(); err != nil {
					return fmt.Errorf("object extensions: %w", err)
				}
				if eff, err = effective(om); err != nil {
					return
				}
				if o, err = env.SR.CreateObject(id, c.ver(), c.dig(), nil, om); err != nil {
					return
				}
				omap = objMapping(o, om, areas)
				return env.updateObject(o, u)
			})
			if fail("create-object", err, p) {
				return
			}
			odir := filepath.Join(dir, opaths[k])
			ot := readTree(odir)
			if errs := storedParams(ot, "extensions", c.Obj); len(errs) > 0 {
				viol("object-param:"+keysOf(errs), "configuration of the object is not stored: %v", errs)
			}
			r.Count("configurations_compared", len(c.Obj))
			// the objects of the update in progress and of later sessions behave alike
			for n := 2; n <= 3; n++ {
				if !reloadRoot(n) {
					return
				}
				var o2 ocfl.Object
				var d1, d2 []string
				err, p := Guard(func() (err error) {
					if o2, err = env.SR.LoadObjectByID(id); err != nil {
						return
					}
					m2 := o2.GetExtensionManager()
					e2, err := effective(m2)
					if err != nil {
						return err
					}
					d1 = mapDiff(eff, e2)
					d2 = mapDiff(omap, objMapping(o2, m2, areas))
					r.Count("object_mappings_compared", len(omap))
					return nil
				})
				if fail("load-object", err, p) {
					return
				}
				if o2.GetID() != id {
					viol("object-id", "object %q loaded by its identifier is %q", id, o2.GetID())
				}
				if len(d1) > 0 {
					viol("object-config:"+strings.SplitN(d1[0], ":", 2)[0], "reload: the effective configuration of the object changed: %v", d1)
				}
				if len(d2) > 0 {
					viol("object-mapping:"+strings.Fields(d2[0])[0], "reload: paths are mapped differently: %v", first(d2, 5))
				}
				// another update keeps the configuration
				src2 := map[string][]byte{"a.txt": []byte(fmt.Sprintf("changed %d", n)), fmt.Sprintf("new%d.txt", n): []byte(fmt.Sprintf("new %d", n))}
				srcDir := filepath.Join(tmp, fmt.Sprintf("s%d-%d", k, n))
				writeTree(srcDir, Tree(src2))
				u := genUpdHead(rng)
				u.Ops = []Op{{Kind: "folder", Src: src2, SrcDir: srcDir}}
				err, p = Guard(func() error { return env.updateObject(o2, u) })
				if fail("update-object", err, p) {
					return
				}
				ot2 := readTree(odir)
				for _, e := range c.Obj {
					f := "extensions/" + e.Name + "/config.json"
					if canonJSON(ot[f]) != canonJSON(ot2[f]) {
						viol("object-config-rewritten:"+e.Name, "the stored configuration changed by an update: %s became %s", clip(string(ot[f]), 500), clip(string(ot2[f]), 500))
					}
				}
			}
		}
		if i < 8 {
			r.Sample(map[string]any{"config": c.Label, "objects": oids, "mapping": rootMap[ids[1]]})
		}
		r.Case(c.Label, true)
	})
}

func hasLongSeg(p string) bool {
	for _, s := range strings.Split(p, "/") {
		if len(s) > 250 {
			return true
		}
	}
	return false
}
