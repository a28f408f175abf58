package main

// Containers: a storage root in a zip file behaves like one in a directory.

import (
	"archive/zip"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/google/tink/go/core/registry"
	"github.com/google/tink/go/keyset"
	"github.com/google/tink/go/streamingaead"
	"github.com/je4/filesystem/v3/pkg/osfsrw"
	"github.com/je4/filesystem/v3/pkg/writefs"
	"github.com/je4/filesystem/v3/pkg/zipfsrw"
	"github.com/je4/utils/v2/pkg/checksum"
	"github.com/je4/utils/v2/pkg/encrypt"
	"github.com/je4/utils/v2/pkg/keepass2kms"
	"github.com/tobischo/gokeepasslib/v3"
	"github.com/tobischo/gokeepasslib/v3/wrappers"
)

func init() {
	register("C21", "exploration", "random sequences of init, create, add, update, validate, extract, extractmeta and stat executed by the gocfl program, each on a directory and on a zip container; after every command the files of both are compared (creation times aside), the container is read completely, its checksum sidecars and its decrypted encrypted copy are compared with it; commands that fail in the middle, are refused or are killed, and damaged containers; non-trivial when a container was written", c21)
}

const kpPassword = "correct horse"

// makeKeepass writes a database with the key for encrypted copies
func makeKeepass(file string) error {
	db := gokeepasslib.NewDatabase(gokeepasslib.WithDatabaseKDBXVersion4())
	db.Credentials = gokeepasslib.NewPasswordCredentials(kpPassword)
	e := gokeepasslib.NewEntry()
	e.Values = append(e.Values, gokeepasslib.ValueData{Key: "Title", Value: gokeepasslib.V{Content: "test"}},
		gokeepasslib.ValueData{Key: "Password", Value: gokeepasslib.V{Content: "0123456789abcdef0123456789abcdef", Protected: wrappers.NewBoolWrapper(true)}})
	s := gokeepasslib.NewGroup()
	s.Name = "gocfl"
	s.Entries = append(s.Entries, e)
	g := gokeepasslib.NewGroup()
	g.Name = "Root"
	g.Groups = append(g.Groups, s)
	db.Content.Root = &gokeepasslib.RootData{Groups: []gokeepasslib.Group{g}}
	db.LockProtectedEntries()
	f, err := os.Create(file)
	if err != nil {
		return err
	}
	defer f.Close()
	return gokeepasslib.NewEncoder(f).Encode(db)
}

const kpURI = "keepass2://keys.kdbx/Root/gocfl/test"

// decryptCopy decrypts the encrypted copy of a container
func decryptCopy(kdbx, container string) ([]byte, error) {
	db, err := keepass2kms.LoadKeePassDBFromFile(kdbx, kpPassword)
	if err != nil {
		return nil, err
	}
	client, err := keepass2kms.NewClient(db, filepath.Base(kdbx))
	if err != nil {
		return nil, err
	}
	aead, err := client.GetAEAD(kpURI)
	if err != nil {
		return nil, err
	}
	b, err := os.ReadFile(container + ".aes.key.json")
	if err != nil {
		return nil, err
	}
	var ks struct {
		EncryptedKey encrypt.Base64 `json:"encrypted_key"`
		Aad          encrypt.Base64 `json:"associated_data"`
	}
	if err := json.Unmarshal(b, &ks); err != nil {
		return nil, err
	}
	handle, err := keyset.Read(keyset.NewBinaryReader(bytes.NewReader(ks.EncryptedKey)), aead)
	if err != nil {
		return nil, err
	}
	a, err := streamingaead.New(handle)
	if err != nil {
		return nil, err
	}
	f, err := os.Open(container + ".aes")
	if err != nil {
		return nil, err
	}
	defer f.Close()
	rd, err := a.NewDecryptingReader(f, ks.Aad)
	if err != nil {
		return nil, err
	}
	return io.ReadAll(rd)
}

// readZip reads a container completely
func readZip(file string) (Tree, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return nil, err
	}
	t := Tree{}
	for _, f := range zr.File {
		if strings.HasSuffix(f.Name, "/") {
			continue
		}
		if _, ok := t[f.Name]; ok {
			return nil, fmt.Errorf("the container contains %q twice", f.Name)
		}
		if path.Clean(f.Name) != f.Name || strings.HasPrefix(f.Name, "/") || strings.HasPrefix(f.Name, "../") {
			return nil, fmt.Errorf("the container contains the strange path %q", f.Name)
		}
		rc, err := f.Open()
		if err != nil {
			return nil, fmt.Errorf("%s: %w", f.Name, err)
		}
		c, err := io.ReadAll(rc)
		rc.Close()
		if err != nil {
			return nil, fmt.Errorf("%s: %w", f.Name, err)
		}
		if c == nil {
			c = []byte{}
		}
		t[f.Name] = c
	}
	return t, nil
}

func writeZip(file string, t Tree) error {
	b := &bytes.Buffer{}
	zw := zip.NewWriter(b)
	for _, k := range sortedKeys(t) {
		if strings.HasSuffix(k, "/") {
			continue
		}
		w, err := zw.Create(k)
		if err != nil {
			return err
		}
		w.Write(t[k])
	}
	if err := zw.Close(); err != nil {
		return err
	}
	return os.WriteFile(file, b.Bytes(), 0644)
}

// timeless removes the creation times from the inventories of a tree, and
// replaces sidecars that fit their inventory
func timeless(t Tree) Tree {
	n := Tree{}
	for k, b := range t {
		base := path.Base(k)
		switch {
		case base == "inventory.json":
			n[k] = timelessInv(b)
		case strings.HasPrefix(base, "inventory.json."):
			alg := strings.TrimPrefix(base, "inventory.json.")
			if inv, ok := t[strings.TrimSuffix(k, "."+alg)]; ok && newHashOK(alg) {
				if string(b) == digest(alg, inv)+" inventory.json" || string(b) == digest(alg, inv)+" inventory.json\n" {
					b = []byte("fits " + string(b[len(digest(alg, inv)):]))
				}
			}
			n[k] = b
		case strings.HasSuffix(k, ".gz"):
			// (compression adds nothing)
			if zr, err := gzip.NewReader(bytes.NewReader(b)); err == nil {
				if c, err := io.ReadAll(zr); err == nil {
					b = append([]byte("gz "), c...)
				}
			}
			n[k] = b
		default:
			n[k] = b
		}
	}
	return n
}

func newHashOK(alg string) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return newHash(alg) != nil
}

func timelessInv(b []byte) []byte {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var m map[string]any
	if d.Decode(&m) != nil {
		return b
	}
	vs, ok := m["versions"].(map[string]any)
	if !ok {
		return b
	}
	for _, v := range vs {
		if x, ok := v.(map[string]any); ok {
			if _, is := x["created"].(string); is {
				x["created"] = "T"
			}
		}
	}
	c, err := json.Marshal(m)
	if err != nil {
		return b
	}
	return c
}

// prefixed returns a folder whose name is the beginning of the name of a sibling
func prefixed(t Tree) string {
	dirs := map[string]bool{}
	for k := range t {
		for d := path.Dir(k); d != "." && d != "/"; d = path.Dir(d) {
			dirs[d] = true
		}
	}
	for d := range dirs {
		for k := range t {
			if strings.HasPrefix(k, d) && !strings.HasPrefix(k, d+"/") {
				return d + " / " + k
			}
		}
	}
	return ""
}

// endMark makes names that are not the beginning of one another
func endMark(p string) string {
	parts := strings.Split(p, "/")
	for i, s := range parts {
		if s != "" && !strings.HasSuffix(s, "~") {
			parts[i] = s + "~"
		}
	}
	return strings.Join(parts, "/")
}

func endMarks(u *Upd) {
	for i := range u.Ops {
		op := &u.Ops[i]
		src := map[string][]byte{}
		for _, k := range sortedKeys(op.Src) {
			src[endMark(k)] = op.Src[k]
		}
		if op.Src != nil {
			op.Src = src
		}
		for j := range op.Dirs {
			op.Dirs[j] = endMark(op.Dirs[j])
		}
	}
}

func c21(r *Run) {
	bin := filepath.Join(os.Getenv("VERIF_BIN"), "gocfl")
	if _, err := os.Stat(bin); err != nil {
		panic("the gocfl program is not built: " + err.Error())
	}
	r.Assume = []string{
		"what a directory can hold besides files (empty folders, times, permissions) is not compared",
		"names of which one is the beginning of a sibling folder's or file's name are kept out of the histories: the zip file system (third party) confuses them, which is a known finding with its own probe",
		"leftover temporary files beside the container are not judged",
	}
	kdbx := filepath.Join(r.Scratch, "keys.kdbx")
	if err := makeKeepass(kdbx); err != nil {
		panic(err)
	}
	r.Parallel(r.N(70, 700), func(i int) {
		rng := r.Rng("c21", i)
		var cfg *Cfg
		if i%3 == 2 {
			cfg = richCfg(rng, r.Scratch)
		} else {
			cfg = genCfg(rng)
		}
		cfg.Indexer, cfg.Migration, cfg.Thumb = nil, nil, nil
		w := &World{r: r, rng: rng, cfg: cfg, objs: map[string]*MObj{}}
		w.tmp = filepath.Join(r.Scratch, fmt.Sprintf("c21-%d", i))
		w.dir = filepath.Join(w.tmp, "root")
		defer w.done()
		k := &cli{w: w, rng: rng, bin: bin, extRoot: filepath.Join(w.tmp, "extroot"), extObj: filepath.Join(w.tmp, "extobj")}
		k.twin = filepath.Join(w.tmp, "box", pick(rng, []string{"container.zip", "a b.zip", "x.y.zip"}))
		for _, e := range []error{os.MkdirAll(w.dir, 0755), os.MkdirAll(filepath.Dir(k.twin), 0755), os.MkdirAll(k.extObj, 0755), writeTree(k.extRoot, extFiles(cfg.Root)), writeTree(k.extObj, extFiles(cfg.Obj))} {
			if e != nil {
				panic(e)
			}
		}
		if i%3 == 0 {
			k.kdbx = kdbx
		}
		w.exec = k.do
		k.zipSession()
		r.Case(cfg.Label, len(w.objs) > 0)
		r.Sample(map[string]any{"config": cfg.Label, "history": first(w.log, 4)})
	})
	c21probes(r, bin)
}

// aesConf is the configuration for encrypted copies
func (c *cli) aesConf() string {
	if c.kdbx == "" {
		return ""
	}
	return fmt.Sprintf("[AES]\nEnable = true\nKeepassFile = %s\nKeepassEntry = %s\nKeepassKey = %s\n", toml(c.kdbx), toml(kpURI), toml(kpPassword))
}

func (c *cli) zipSession() {
	w, rng, r := c.w, c.rng, c.w.r
	base := *w.cfg
	if rng.Intn(2) == 0 {
		c.create = true
	} else {
		o := c.opts()
		c.rootOpts(o, false)
		if err := c.success(c.run("init", []string{w.dir}, o), true); err != nil {
			w.violate("init-failed", err.Error())
			return
		}
		c.container("init", base.Digest)
	}
	nobj := 1 + rng.Intn(3)
	var ids []string
	for k := 0; k < nobj; k++ {
		ids = append(ids, w.newID(k))
	}
	steps := 2 + rng.Intn(5)
	for k := 0; k < steps && !w.bad; k++ {
		if (!c.create || len(w.objs) > 0) && rng.Intn(3) == 0 {
			c.fails(ids)
			if w.bad {
				return
			}
		}
		id := pick(rng, ids)
		cc := base
		if o := w.objs[id]; o != nil {
			cc = *o.Cfg
			if len(o.Versions) >= 9 {
				continue
			}
		} else if !c.create {
			cc.Digest = pick(rng, []string{"sha512", "sha256"})
		}
		w.cfg = &cc
		u := w.genUpd(id, HistOpt{Odd: true, Noop: true, MaxTree: 6})
		u.Areas = false
		c.oneAreaEach(u)
		endMarks(u)
		if rng.Intn(12) == 0 && len(u.Ops) > 0 && u.Ops[0].Src != nil {
			// more than any buffer
			u.Ops[0].Src["big~"] = randBytes(rng, 1200000+rng.Intn(2000000))
		}
		if w.objs[id] == nil {
			u.Echo = false
		}
		before := mustRead(c.twin)
		c.aesBefore = append(mustRead(c.twin+".aes"), mustRead(c.twin+".aes.key.json")...)
		s := w.step(id, u)
		if w.opFailed(s) {
			return
		}
		if w.objs[id] == nil {
			c.violate("no-object", fmt.Sprintf("object %q is not there after the command that was to create it", id))
			return
		}
		if p := prefixed(s.After.files()); p != "" {
			r.Count("sessions_ended_for_prefix_names", 1)
			return
		}
		r.Count("updates_executed", 1)
		if err := c.success(c.twinRes, true); err != nil {
			c.violate("zip-failed", "the command works on the directory but not on the container: "+err.Error())
			return
		}
		dg := c.digest
		if bytes.Equal(sumOf(before), sumOf(mustRead(c.twin))) {
			dg = "" // nothing written
		}
		c.container(c.last.Args[0], dg)
		if !w.bad && rng.Intn(2) == 0 {
			c.readBoth(s.After)
		}
		if !w.bad && rng.Intn(4) == 0 {
			c.killed(id)
		}
	}
	if len(w.objs) > 0 && !w.bad {
		c.damageBoth()
	}
}

func mustRead(p string) []byte { b, _ := os.ReadFile(p); return b }
func sumOf(b []byte) []byte    { return []byte(digest("sha256", b)) }

// container compares the container with the directory and with what accompanies it
func (c *cli) container(cmd, dg string) {
	w, r := c.w, c.w.r
	z, err := readZip(c.twin)
	if err != nil {
		c.violate("container-broken", fmt.Sprintf("after %s the container cannot be read completely: %v", cmd, err))
		return
	}
	a, b := timeless(readTree(w.dir).files()), timeless(z)
	if d := diffTrees(a, b); len(d) > 0 {
		c.violate("container-differs", fmt.Sprintf("after %s the container differs from the directory: %v", cmd, first(d, 8)))
		return
	}
	r.Count("containers_compared", 1)
	r.Count("container_files_compared", len(b))
	c.companions(cmd, dg)
}

var reSidecar = regexp.MustCompile(`^([0-9a-f]+) [ *](.*?)\n?$`)

// companions: the sidecars and the encrypted copy fit the container
func (c *cli) companions(cmd, dg string) {
	w, r := c.w, c.w.r
	box, base := filepath.Dir(c.twin), filepath.Base(c.twin)
	files := readTree(box)
	seen := map[string]bool{}
	for _, n := range sortedKeys(files) {
		of, alg := base, strings.TrimPrefix(n, base+".")
		if strings.HasPrefix(n, base+".aes.") {
			of, alg = base+".aes", strings.TrimPrefix(n, base+".aes.")
		}
		if n == base || n == base+".aes" || strings.HasSuffix(n, ".tmp") || alg == "key.json" || !strings.HasPrefix(n, base+".") {
			continue
		}
		m := reSidecar.FindStringSubmatch(string(files[n]))
		if m == nil || !newHashOK(alg) || m[2] != of {
			c.violate("sidecar-strange", fmt.Sprintf("after %s the sidecar %s contains %q", cmd, n, clip(string(files[n]), 200)))
			return
		}
		if of == base+".aes" && c.kdbx == "" {
			continue
		}
		seen[n] = true
		r.Count("sidecars_compared", 1)
		if digest(alg, files[of]) != m[1] {
			if of == base+".aes" && c.fresh(files, dg) {
				c.shortCopy(fmt.Sprintf("after %s the %s sidecar of the encrypted copy does not fit", cmd, alg))
				continue
			}
			c.violate("sidecar-wrong:"+strings.TrimPrefix(of, base), fmt.Sprintf("after %s the %s sidecar of %s does not fit: %s instead of %s", cmd, alg, of, m[1], digest(alg, files[of])))
			return
		}
	}
	if dg != "" && !seen[base+"."+dg] {
		c.violate("sidecar-missing", fmt.Sprintf("after %s with digest %s there is no such sidecar: %v", cmd, dg, sortedKeys(files)))
		return
	}
	if c.kdbx == "" {
		return
	}
	if dg != "" && !seen[base+".aes."+dg] {
		c.violate("sidecar-missing", fmt.Sprintf("after %s with digest %s there is no such sidecar of the encrypted copy: %v", cmd, dg, sortedKeys(files)))
		return
	}
	if files[base+".aes"] == nil || files[base+".aes.key.json"] == nil || !c.fresh(files, dg) {
		c.violate("encrypted-copy-stale", fmt.Sprintf("after %s the encrypted copy is missing or still the one of the previous container: %v", cmd, sortedKeys(files)))
		return
	}
	p, err := decryptCopy(c.kdbx, c.twin)
	r.Count("encrypted_copies_decrypted", 1)
	switch {
	case err != nil:
		c.shortCopy(fmt.Sprintf("after %s the encrypted copy cannot be decrypted: %v", cmd, err))
	case bytes.Equal(p, files[base]):
		r.Count("encrypted_copies_equal", 1)
	case bytes.HasPrefix(files[base], p):
		c.shortCopy(fmt.Sprintf("after %s the encrypted copy (%d bytes) lacks the end of the container (%d bytes)", cmd, len(p), len(files[base])))
	default:
		c.violate("encrypted-copy", fmt.Sprintf("after %s the encrypted copy (%d bytes) is not the container (%d bytes)", cmd, len(p), len(files[base])))
	}
	_ = w
}

// fresh: the encrypted copy was written by the last command (if that wrote the container)
func (c *cli) fresh(files Tree, dg string) bool {
	base := filepath.Base(c.twin)
	return dg == "" || !bytes.Equal(c.aesBefore, append(append([]byte{}, files[base+".aes"]...), files[base+".aes.key.json"]...))
}

// shortCopy: the third-party package that encrypts closes its output before
// the last bytes have arrived (a race within it); a known finding
func (c *cli) shortCopy(msg string) {
	c.w.r.Count("encrypted_copies_short", 1)
	c.w.r.Violate("third-party:encrypted-copy-race", msg, map[string]any{"history": c.w.log})
}

// asDir makes the report on a container comparable with the one on the directory
func (c *cli) asDir(s string) string {
	s = regexp.MustCompile(`"Created": *"[^"]*"`).ReplaceAllString(s, `"Created": "T"`)
	s = regexp.MustCompile(`\[[^\[\]]*'(sub[^']*|osFSRW[^']*|[a-z]*[fF][sS][^']*)'`).ReplaceAllString(s, "[FS")
	s = regexp.MustCompile(`[0-9]{4}-[0-9]{2}-[0-9]{2}[T ][0-9:]+(\.[0-9]+)?( ?[+-][0-9:]+|Z)?( UTC| CET)?`).ReplaceAllString(s, "T")
	s = regexp.MustCompile(`[0-9a-f]{32,128}`).ReplaceAllString(s, "H")
	s = regexp.MustCompile(`(Fixity: )(.*)`).ReplaceAllStringFunc(s, func(l string) string {
		algs := strings.Split(l, ", ")
		algs[0] = algs[0][strings.Index(algs[0], "Fixity: ")+8:]
		return "Fixity: " + strings.Join(sorted(algs), ", ")
	})
	return s
}

// readBoth runs commands that only read on both
func (c *cli) readBoth(t Tree) {
	w, rng, r := c.w, c.rng, c.w.r
	o := w.objs[pick(rng, sortedKeys(w.objs))]
	how := rng.Intn(3)
	z0 := mustRead(c.twin)
	op := c.opts()
	target := func(section string) {
		switch how {
		case 1:
			op.set(section, "ObjectID = "+toml(o.ID))
		case 2:
			op.set(section, "ObjectPath = "+toml(o.Path))
		}
	}
	what := pick(rng, []string{"validate", "extract", "extractmeta", "stat"})
	r.Count("readings_compared", 1)
	r.Case("read "+what, true)
	var res *cliRes
	switch what {
	case "validate":
		target("Validate")
		res = c.run("validate", []string{w.dir}, op)
	case "extract":
		target("Extract")
		if how != 0 {
			op.flag("version", "", pick(rng, append([]string{"latest"}, versionNames(len(o.Versions))...)))
		}
		op.boolean("with-manifest", "Extract", "Manifest", rng.Intn(2) == 0, false)
		op.flag("area", "", pick(rng, []string{"content", "full"}))
		d1, d2 := w.tmpDir(), w.tmpDir()
		os.MkdirAll(d1, 0755)
		os.MkdirAll(d2, 0755)
		defer os.RemoveAll(d1)
		defer os.RemoveAll(d2)
		c.twinDst = d2
		res = c.run("extract", []string{w.dir, d1}, op)
		c.twinDst = ""
		a, b := timeless(readTree(d1)), timeless(readTree(d2))
		for _, x := range []Tree{a, b} {
			for k, v := range x {
				if strings.HasPrefix(path.Base(k), "manifest-") {
					// the order of the lines is of no importance
					l := strings.Split(string(v), "\n")
					sortStrings(l)
					x[k] = []byte(strings.Join(l, "\n"))
				}
			}
		}
		if d := diffTrees(a, b); len(d) > 0 {
			c.violate("extract-differs", fmt.Sprintf("the extraction from the container differs from the one from the directory: %v", first(d, 8)))
			return
		}
	case "extractmeta":
		target("ExtractMeta")
		res = c.run("extractmeta", []string{w.dir}, op)
	case "stat":
		target("Stat")
		res = c.run("stat", []string{w.dir}, op)
	}
	if !bytes.Equal(z0, mustRead(c.twin)) {
		c.violate("read-changed", what+" changed the container")
		return
	}
	e1, e2 := c.success(res, true), c.success(c.twinRes, true)
	if e1 != nil {
		return // not judged here
	}
	if e2 != nil {
		c.violate("zip-failed", "the command works on the directory but not on the container: "+e2.Error())
		return
	}
	a, b := lines(c.asDir(res.Out)), lines(c.asDir(c.twinRes.Out))
	if what != "validate" && fmt.Sprint(a) != fmt.Sprint(b) {
		c.violate("report-differs:"+what, fmt.Sprintf("the report on the container differs from the one on the directory: %v", first(lineDiff(a, b), 6)))
	}
}

func versionNames(n int) []string {
	var v []string
	for i := 1; i <= n; i++ {
		v = append(v, fmt.Sprintf("v%d", i))
	}
	return v
}

func lines(s string) []string {
	var l []string
	for _, x := range strings.Split(s, "\n") {
		// headings are repeated depending on the order of the messages
		if x != "" && !strings.HasPrefix(x, "[FS") {
			l = append(l, x)
		}
	}
	sortStrings(l)
	return l
}

func lineDiff(a, b []string) (d []string) {
	n := map[string]int{}
	for _, x := range a {
		n[x]++
	}
	for _, x := range b {
		n[x]--
	}
	for _, x := range sortedKeys(n) {
		if n[x] > 0 {
			d = append(d, "only directory: "+clip(x, 160))
		} else if n[x] < 0 {
			d = append(d, "only container: "+clip(x, 160))
		}
	}
	return d
}

// alone runs commands on the container only
func (c *cli) alone(f func()) {
	dir, twin := c.w.dir, c.twin
	c.w.dir, c.twin = twin, ""
	defer func() { c.w.dir, c.twin = dir, twin }()
	f()
}

// fails runs commands which fail, some of them after they have begun to write
func (c *cli) fails(ids []string) {
	w, rng, r := c.w, c.rng, c.w.r
	src, src2 := w.tmpDir(), w.tmpDir()
	writeTree(src, Tree{"new file~": padded([]byte("new")), "d~/x~": padded([]byte("y")), "m~": randBytes(rng, 3000)})
	writeTree(src2, Tree{"other~": padded([]byte("other"))})
	defer os.RemoveAll(src)
	defer os.RemoveAll(src2)
	if w.cfg.MetaFile != "" {
		os.WriteFile(w.cfg.MetaFile, genMetaDoc(rng), 0644)
	}
	var existing, fresh []string
	for _, id := range ids {
		if w.objs[id] != nil {
			existing = append(existing, id)
		} else {
			fresh = append(fresh, id)
		}
	}
	fresh = append(fresh, w.newID(800))
	cmd, id := "add", pick(rng, fresh)
	if len(existing) > 0 && rng.Intn(2) == 0 {
		cmd, id = "update", pick(rng, existing)
	}
	pos := []string{c.twin, src}
	o := c.opts()
	what := ""
	switch k := rng.Intn(7); {
	case k <= 2:
		what = cmd + " of a source with a file that cannot be read"
		bad := pick(rng, []string{"a broken link", "zz broken link", "d~/link"})
		os.Symlink("/nonexistent/gocfl", filepath.Join(src, bad))
	case k == 3:
		what = cmd + " with an area folder that cannot be read"
		os.Symlink("/nonexistent/gocfl", filepath.Join(src2, "zz"))
		area := "extra"
		if w.cfg.Areas == nil {
			area = "content"
		}
		pos = append(pos, area+":"+src2)
	case k == 4:
		what = cmd + " with an area folder that does not exist"
		pos = append(pos, "extra:"+src2+"-missing")
	case k == 5 && len(existing) > 0:
		what, cmd, id = "add of an object that exists", "add", pick(rng, existing)
	case k == 6 && w.cfg.MetaFile != "":
		what = cmd + " without its metadata file"
		os.Remove(w.cfg.MetaFile)
	default:
		what = cmd + " of a source that does not exist"
		pos[1] = src + "-missing"
	}
	o.flag("object-id", "i", id)
	if cmd == "add" {
		o.set("Add", "Fixity = []")
		o.str("default-object-extensions", "", "Add", "ObjectExtensions", c.extObj, nil)
	}
	if rng.Intn(2) == 0 {
		o.flag("digest", "d", pick(rng, []string{"sha512", "sha256"}))
	}
	for k, v := range w.cfg.Params {
		o.flag(k, "", v)
	}
	box := filepath.Dir(c.twin)
	before := readTree(box)
	var res *cliRes
	twin := c.twin
	c.alone(func() { res = c.run(cmd, pos, o) })
	r.Count("failing_commands", 1)
	r.Case("fails "+what, true)
	after := readTree(box)
	base := filepath.Base(twin)
	if !bytes.Equal(before[base], after[base]) {
		c.violate("failed-changed", fmt.Sprintf("%s: the command failed but the container is not the previous one (%d bytes, before %d)", what, len(after[base]), len(before[base])))
		return
	}
	if !res.complains() {
		c.violate("silent:"+what, what+": the command cannot do what was asked but does not say so")
		return
	}
	for n, b := range before {
		if n == base || strings.HasSuffix(n, ".tmp") || bytes.Equal(b, after[n]) {
			continue
		}
		if strings.HasPrefix(n, base+".aes") {
			// known finding of the zip file system, see the probes
			r.Count("encrypted_copies_lost_by_failing_commands", 1)
			continue
		}
		c.violate("failed-changed-companion", fmt.Sprintf("%s: the command failed but %s was changed", what, n))
		return
	}
	// put the encrypted copy back
	for n, b := range before {
		if strings.HasPrefix(n, base+".aes") {
			os.WriteFile(filepath.Join(box, n), b, 0644)
		}
	}
	if rng.Intn(3) == 0 {
		c.alone(func() {
			res := c.run("validate", []string{c.w.dir}, nil)
			if err := c.success(res, true); err != nil {
				c.violate("failed-unusable", what+": the container is not valid afterwards: "+err.Error())
			}
		})
	}
}

// killed interrupts an update of the container
func (c *cli) killed(id string) {
	w, rng, r := c.w, c.rng, c.w.r
	box, base := filepath.Dir(c.twin), filepath.Base(c.twin)
	before := readTree(box)
	old, err := readZip(c.twin)
	if err != nil {
		return
	}
	src := w.tmpDir()
	writeTree(src, Tree{"Q9 new file~": padded([]byte("new")), "Q9m~": randBytes(rng, 1000+rng.Intn(3000000))})
	defer os.RemoveAll(src)
	if w.cfg.MetaFile != "" {
		os.WriteFile(w.cfg.MetaFile, genMetaDoc(rng), 0644)
	}
	o := c.opts()
	o.flag("object-id", "i", id)
	for k, v := range w.cfg.Params {
		o.flag(k, "", v)
	}
	c.killAfter = time.Duration(30000+rng.Intn(90000)) * time.Microsecond
	c.alone(func() { c.run("update", []string{c.w.dir, src}, o) })
	c.killAfter = 0
	r.Count("commands_killed", 1)
	after := readTree(box)
	switch {
	case bytes.Equal(before[base], after[base]):
		r.Case("killed before the container was replaced", true)
	case after[base] == nil:
		r.Count("killed_while_renaming", 1) // known finding of the zip file system, see the probes
	default:
		r.Case("killed after the container was replaced", true)
		z, err := readZip(c.twin)
		if err != nil {
			c.violate("killed-broken", fmt.Sprintf("after an interrupted update the container cannot be read: %v", err))
			return
		}
		obj := w.objs[id].Path
		for k, b := range old {
			if nb, ok := z[k]; (!ok || !bytes.Equal(b, nb)) && !(path.Dir(k) == obj && strings.HasPrefix(path.Base(k), "inventory.json")) && !strings.HasPrefix(k, obj+"/extensions/") {
				c.violate("killed-lost", fmt.Sprintf("after an interrupted update %s is lost or changed", k))
				return
			}
		}
		c.alone(func() {
			if err := c.success(c.run("validate", []string{c.w.dir}, nil), true); err != nil {
				c.violate("killed-invalid", "after an interrupted update the container was replaced by one that is not valid: "+err.Error())
			}
		})
	}
	for n := range after {
		os.Remove(filepath.Join(box, n))
	}
	for n, b := range before {
		os.WriteFile(filepath.Join(box, n), b, 0644)
	}
}

// damageBoth alters both and compares the verdicts
func (c *cli) damageBoth() {
	w, rng, r := c.w, c.rng, c.w.r
	t := readTree(w.dir)
	v := &vroot{dir: w.dir, t: t, cfg: w.cfg, feat: w.cfg.Label}
	for _, id := range sortedKeys(w.objs) {
		v.objs = append(v.objs, w.objs[id].Path)
	}
	sortStrings(v.objs)
	z0 := mustRead(c.twin)
	for n, tries := 0, 0; n < 3 && tries < 15 && !w.bad; tries++ {
		a := v.genAlter(rng, pick(rng, v.objs))
		if a == nil {
			continue
		}
		restore := v.apply(a)
		td := readTree(w.dir)
		if prefixed(td.files()) != "" || len(td.files()) == len(t.files()) && fmt.Sprint(diffTrees(td.files(), t.files())) == "[]" {
			restore() // an empty folder cannot be in a container
			continue
		}
		n++
		if err := writeZip(c.twin, td); err != nil {
			restore()
			continue
		}
		res := c.run("validate", []string{w.dir}, nil)
		r.Count("verdicts_compared", 1)
		r.Case("validate damaged "+a.class, true)
		if vd := c.twinRes.verdict(); vd == "clean" || vd == "contradictory" || !c.twinRes.complains() {
			// the directory is judged by C29
			if res.verdict() != "clean" {
				c.violate("verdict-damaged:"+a.class, fmt.Sprintf("after '%s' the verdict on the container is %q, the one on the directory %q", a.desc, vd, res.verdict()))
			}
		}
		restore()
	}
	os.WriteFile(c.twin, z0, 0644)
}

// c21probes looks at what the zip file system itself (a third-party package)
// does when it is interrupted or given certain names
func c21probes(r *Run, bin string) {
	tmp := filepath.Join(r.Scratch, "c21probes")
	os.MkdirAll(tmp, 0755)
	defer os.RemoveAll(tmp)
	run := func(conf string, args ...string) (string, int) {
		cf := filepath.Join(tmp, "conf.toml")
		os.WriteFile(cf, []byte(conf+"[Indexer.XML]\nEnabled = true\n"), 0644)
		x := exec.Command(bin, append(args, "--config", cf)...)
		x.Dir = tmp
		x.Env = append(os.Environ(), "HOME="+tmp)
		out, err := x.CombinedOutput()
		rc := 0
		if err != nil {
			rc = x.ProcessState.ExitCode()
		}
		r.Count("commands_run", 1)
		return string(out), rc
	}
	ext := filepath.Join(tmp, "ext")
	os.MkdirAll(ext, 0755)
	mk := func(name, conf string, src Tree) string {
		z := filepath.Join(tmp, name)
		s := filepath.Join(tmp, "src-"+strings.TrimSuffix(name, ".zip"))
		writeTree(s, src)
		out, rc := run(conf, "create", z, s, "-i", "id:x", "-d", "sha512", "--default-object-extensions", ext, "-f", "sha512")
		if rc != 0 {
			r.Violate("probe-create", "create of a container failed: "+clip(out, 800), nil)
		}
		return z
	}
	// names of which one is the beginning of the other
	z := mk("names.zip", "", Tree{"a/x": []byte("1"), "ab": []byte("2"), "a-c/y": []byte("3")})
	if out, _ := run("", "validate", z); !strings.Contains(out, "\nno errors found") {
		r.Violate("third-party:prefix-names", "a container with the files a/x, ab and a-c/y is reported as invalid", map[string]any{"output": clip(out, 1500)})
	}
	// a failed update of a container with encrypted copy
	kdbx := filepath.Join(r.Scratch, "keys.kdbx")
	conf := (&cli{kdbx: kdbx}).aesConf()
	z = mk("enc.zip", conf, Tree{"a": []byte("1")})
	bad := filepath.Join(tmp, "badsrc")
	writeTree(bad, Tree{"b": []byte("2")})
	os.Symlink("/nonexistent/gocfl", filepath.Join(bad, "zz"))
	run(conf, "update", z, bad, "-i", "id:x")
	if p, err := decryptCopy(kdbx, z); err != nil || !bytes.Equal(p, mustRead(z)) {
		r.Violate("third-party:encrypted-copy-after-failure", fmt.Sprintf("after a failed update the encrypted copy of the (unchanged) container is not usable: %v", err), nil)
	}
	// the end of an encrypted copy
	for k := 0; k < 60; k++ {
		z := filepath.Join(tmp, fmt.Sprintf("race%d.zip", k))
		ok := func() bool {
			inner, err := osfsrw.NewFS(tmp, nopLogger())
			if err != nil {
				panic(err)
			}
			db, err := keepass2kms.LoadKeePassDBFromFile(kdbx, kpPassword)
			if err != nil {
				panic(err)
			}
			client, err := keepass2kms.NewClient(db, filepath.Base(kdbx))
			if err != nil {
				panic(err)
			}
			registry.RegisterKMSClient(client)
			fsys, err := zipfsrw.NewFSFileEncryptedChecksums(inner, filepath.Base(z), false, []checksum.DigestAlgorithm{"sha512"}, kpURI, nopLogger())
			if err != nil {
				return false
			}
			for n := 0; n < 20; n++ {
				if f, err := fsys.Create(fmt.Sprint("file", n)); err == nil {
					f.Write(randBytes(rand.New(rand.NewSource(int64(n))), 5000))
					f.Close()
				}
			}
			if err := writefs.Close(fsys); err != nil {
				return false
			}
			p, err := decryptCopy(kdbx, z)
			m := reSidecar.FindStringSubmatch(string(mustRead(z + ".aes.sha512")))
			return err == nil && bytes.Equal(p, mustRead(z)) && m != nil && m[1] == digest("sha512", mustRead(z+".aes"))
		}()
		r.Count("encrypted_copies_written_directly", 1)
		if !ok {
			r.Violate("third-party:encrypted-copy-race", "the encrypted copy written with a container is incomplete or does not fit its sidecar", nil)
			break
		}
	}
	// the end of an update is interrupted or fails
	for _, mode := range []string{"err", "crash"} {
		for k := 0; k < 40; k++ {
			dir := filepath.Join(tmp, fmt.Sprintf("close-%s-%d", mode, k))
			os.MkdirAll(dir, 0755)
			writeZip(filepath.Join(dir, "c.zip"), Tree{"old": bytes.Repeat([]byte("old content "), 1000), "d/keep": []byte("keep")})
			inner, err := osfsrw.NewFS(dir, nopLogger())
			if err != nil {
				panic(err)
			}
			site := ""
			n := 0
			crashed := false
			rec := NewRec()
			rec.At = true
			rec.Fault = func(_ int, op, p string) error {
				if crashed {
					return fmt.Errorf("crashed")
				}
				if !mutating(op) {
					return nil
				}
				n++
				if n == k+1 {
					site = strings.TrimSpace(op + " " + strings.TrimPrefix(p, "c.zip"))
					crashed = mode == "crash"
					return fmt.Errorf("injected")
				}
				return nil
			}
			func() {
				defer func() { recover() }()
				fsys, err := zipfsrw.NewFSFileChecksums(NewXFS(inner, rec), "c.zip", false, []checksum.DigestAlgorithm{"sha512"}, nopLogger())
				if err != nil {
					return
				}
				if f, err := fsys.Create("new"); err == nil {
					f.Write(bytes.Repeat([]byte{1, 2, 3, 4, 5}, 5000))
					f.Close()
				}
				writefs.Close(fsys)
			}()
			r.Count("interrupted_container_writes", 1)
			if site == "" {
				os.RemoveAll(dir)
				break
			}
			t, err := readZip(filepath.Join(dir, "c.zip"))
			if err != nil || t["old"] == nil || t["d/keep"] == nil {
				r.Violate("third-party:container-close:"+mode+":"+site, fmt.Sprintf("%s at '%s' while the new container is put in place: the previous container is lost: %v", mode, site, err), nil)
			}
			os.RemoveAll(dir)
		}
	}
}

var _ = rand.Int
