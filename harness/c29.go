package main

// The command line: what the commands do and what they report.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

func init() {
	register("C29", "exploration", "random sequences of init, create, add, update, validate, extract, extractmeta and stat, executed by the gocfl program on directories, with the options given on the command line, in the configuration file or in both, by long and short names, with absolute and relative paths; after every command the repository on disk is compared with the model and with an independent reading, refused commands must leave it untouched and say so, verdicts and reports are compared with the state of the repository, which is also damaged at random; non-trivial when a command changed, reported or refused something", c29)
}

// cliRes is what a command did
type cliRes struct {
	Args     []string
	Conf     string
	Out, Err string
	RC       int
}

func (c *cliRes) String() string {
	return fmt.Sprintf("gocfl %q: exit %d\n    config: %s\n    stdout: %s\n    stderr: %s", c.Args, c.RC, clip(strings.ReplaceAll(c.Conf, "\n", " ; "), 900), clip(tailOf(c.Out, 700), 800), clip(c.Err, 1200))
}

func tailOf(s string, n int) string {
	if len(s) > n {
		return "…" + s[len(s)-n:]
	}
	return s
}

var reErrors = regexp.MustCompile(`(?m)^([0-9]+) errors found$`)

// verdict of the output: "clean", "errors" or ""
func (c *cliRes) verdict() string {
	clean := strings.Contains("\n"+c.Out, "\nno errors found\n")
	m := reErrors.FindStringSubmatch(c.Out)
	switch {
	case clean && m != nil:
		return "contradictory"
	case clean:
		return "clean"
	case m != nil && m[1] != "0":
		return "errors"
	}
	return ""
}

// complains: the command says that something went wrong
func (c *cliRes) complains() bool {
	return c.RC != 0 || c.verdict() == "errors" || strings.Contains(c.Err, `"level":"error"`) || strings.Contains(c.Err, "Error") ||
		regexp.MustCompile(`already exist|not empty|does not exist|cannot `).MatchString(c.Out)
}

// cli drives the program for a world
type cli struct {
	w      *World
	rng    *rand.Rand
	bin    string
	last   *cliRes
	create bool // the next add is a create
	extRoot,
	extObj string
	n int
	// the same on a container (C21)
	twin, twinDst, kdbx, digest string
	twinRes                     *cliRes
	killAfter                   time.Duration
	aesBefore                   []byte
}

func toml(s string) string {
	b := &bytes.Buffer{}
	e := json.NewEncoder(b)
	e.SetEscapeHTML(false)
	e.Encode(s)
	return strings.ReplaceAll(strings.TrimSpace(b.String()), "\x7f", `\u007f`)
}

// opts collects command line options and configuration entries
type opts struct {
	c    *cli
	args []string
	conf map[string][]string // section -> lines
}

func (c *cli) opts() *opts { return &opts{c: c, conf: map[string][]string{}} }

func (o *opts) set(section, line string) { o.conf[section] = append(o.conf[section], line) }

// str gives a string option by flag, by configuration or by both (the flag wins)
func (o *opts) str(long, short, section, key, val string, others []string) {
	r := o.c.rng
	mode := r.Intn(3)
	if val == "" || section == "" && mode == 1 {
		mode = 1
		if section == "" {
			return
		}
	}
	if section != "" && (mode == 1 || mode == 2) {
		v := val
		if mode == 2 && len(others) > 0 {
			v = pick(r, others)
		}
		o.set(section, key+" = "+toml(v))
	}
	if mode != 1 {
		o.flag(long, short, val)
	}
}

func (o *opts) flag(long, short, val string) {
	switch n := o.c.rng.Intn(4); {
	case short != "" && n == 0:
		o.args = append(o.args, "-"+short, val)
	case short != "" && n == 1:
		o.args = append(o.args, "-"+short+val)
	case n == 2:
		o.args = append(o.args, "--"+long, val)
	default:
		o.args = append(o.args, "--"+long+"="+val)
	}
}

// value is the value an option has in the end
func (o *opts) value(long, short, section, key, def string) string {
	for i, a := range o.args {
		switch {
		case a == "--"+long || a == "-"+short:
			return o.args[i+1]
		case strings.HasPrefix(a, "--"+long+"="):
			return strings.TrimPrefix(a, "--"+long+"=")
		case strings.HasPrefix(a, "-"+short) && !strings.HasPrefix(a, "--"):
			return strings.TrimPrefix(a, "-"+short)
		}
	}
	for _, l := range o.conf[section] {
		if strings.HasPrefix(l, key+" = ") {
			return strings.Trim(strings.TrimPrefix(l, key+" = "), `"`)
		}
	}
	return def
}

func (o *opts) boolean(long, section, key string, val, neg bool) {
	// neg: the flag switches off what the configuration entry switches on
	entry := val
	flag := val
	if neg {
		flag = !val
	}
	if flag && o.c.rng.Intn(2) == 0 {
		o.args = append(o.args, "--"+long)
		if o.c.rng.Intn(2) == 0 {
			o.set(section, fmt.Sprintf("%s = %v", key, o.c.rng.Intn(2) == 0))
		}
		return
	}
	o.set(section, fmt.Sprintf("%s = %v", key, entry))
}

func (o *opts) render() string {
	var b strings.Builder
	if l, ok := o.conf[""]; ok {
		b.WriteString(strings.Join(l, "\n") + "\n")
	}
	for _, s := range sortedKeys(o.conf) {
		if s != "" {
			fmt.Fprintf(&b, "[%s]\n%s\n", s, strings.Join(o.conf[s], "\n"))
		}
	}
	return b.String()
}

// path writes a path in one of several ways
func (c *cli) path(p string) string {
	rel, err := filepath.Rel(c.w.tmp, p)
	if err != nil {
		return p
	}
	switch c.rng.Intn(6) {
	case 0:
		return rel
	case 1:
		return "./" + rel
	case 2:
		return p + "/"
	case 3:
		return filepath.Dir(p) + "/./" + filepath.Base(p)
	}
	return p
}

// run executes the program; positional arguments and options are mixed
func (c *cli) run(cmd string, pos []string, o *opts) *cliRes {
	res := &cliRes{}
	if o == nil {
		o = c.opts()
	}
	o.set("Indexer.XML", "Enabled = true")
	res.Conf = o.render() + c.aesConf()
	c.n++
	cf := filepath.Join(c.w.tmp, fmt.Sprintf("conf%d.toml", c.n))
	os.WriteFile(cf, []byte(res.Conf), 0644)
	defer os.Remove(cf)
	args := append([]string{}, o.args...)
	args = append(args, "--config", cf)
	mixed := c.rng.Intn(2) == 0
	build := func(pos []string) []string {
		if mixed {
			return append(append([]string{cmd}, pos...), args...)
		}
		return append(append([]string{cmd}, args...), append([]string{"--"}, pos...)...)
	}
	c.exec(res, build(pos))
	if c.twin != "" {
		tpos := append([]string{}, pos...)
		tpos[0] = c.twin
		if c.twinDst != "" {
			tpos[1] = c.twinDst
		}
		c.twinRes = &cliRes{Conf: res.Conf}
		c.exec(c.twinRes, build(tpos))
	}
	c.last = res
	c.w.r.Count("commands_run", 1)
	c.w.r.Count("command_"+cmd, 1)
	c.w.log = append(c.w.log, fmt.Sprintf("gocfl %q -> %d", clip(fmt.Sprint(args), 700), res.RC))
	return res
}

func (c *cli) exec(res *cliRes, args []string) {
	res.Args = args
	x := exec.Command(c.bin, args...)
	x.Dir = c.w.tmp
	x.Env = append(os.Environ(), "HOME="+c.w.tmp)
	out, er := &bytes.Buffer{}, &bytes.Buffer{}
	x.Stdout, x.Stderr = out, er
	limit := 2 * time.Minute
	if c.killAfter > 0 {
		limit = c.killAfter
	}
	err := x.Start()
	if err == nil {
		done := time.AfterFunc(limit, func() { x.Process.Kill() })
		err = x.Wait()
		done.Stop()
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		res.RC = ee.ExitCode()
	} else if err != nil {
		res.RC, res.Err = -2, "harness: "+err.Error()
	}
	res.Out, res.Err = out.String(), res.Err+er.String()
}

func (c *cli) violate(key, msg string) {
	if c.last != nil {
		msg += "\n    " + c.last.String()
	}
	if c.twin != "" && c.twinRes != nil {
		msg += "\n    " + c.twinRes.String()
	}
	c.w.violate(key, msg)
}

// success: a command that is expected to work
func (c *cli) success(res *cliRes, verdict bool) error {
	if res.RC != 0 || strings.Contains(res.Err, `"level":"error"`) || strings.Contains(res.Err, `"level":"panic"`) {
		return fmt.Errorf("a legitimate %s command failed: %s", res.Args[0], res)
	}
	if v := res.verdict(); verdict && v != "clean" {
		return fmt.Errorf("a legitimate %s command ended with the verdict %q: %s", res.Args[0], v, res)
	}
	return nil
}

var otherDigests = []string{"sha512", "sha256", "md5"}

// versionOpts are the options of a new version
func (c *cli) versionOpts(o *opts, u *Upd, section string) {
	o.str("message", "m", section, "Message", u.Msg, msgs)
	o.str("user-name", "u", section+".User", "Name", u.User, users)
	o.str("user-address", "a", section+".User", "Address", u.Addr, addrs)
	for k, v := range c.w.cfg.Params {
		o.flag(k, "", v)
	}
}

// do performs an update of the model by the program
func (c *cli) do(id string, u *Upd) error {
	w := c.w
	r := c.rng
	o := c.opts()
	exists := w.objs[id] != nil
	var pos []string
	if c.twin != "" {
		// reading must not change the access times
		for _, op := range u.Ops {
			filepath.Walk(op.SrcDir, func(p string, fi os.FileInfo, err error) error {
				if err == nil {
					os.Chtimes(p, time.Now().Add(time.Hour), fi.ModTime().Add(-time.Hour))
				}
				return nil
			})
		}
	}
	main := u.Ops[0]
	if main.Area != "" && main.Area != "content" {
		o.set("", "DefaultArea = "+toml(main.Area))
	}
	pos = append(pos, c.path(w.dir), c.path(main.SrcDir))
	for _, op := range u.Ops[1:] {
		a := op.Area
		if a == "" {
			a = "content"
		}
		pos = append(pos, a+":"+c.path(op.SrcDir))
	}
	o.flag("object-id", "i", id)
	if exists {
		c.versionOpts(o, u, "Update")
		o.boolean("no-deduplicate", "Update", "Deduplicate", u.Dedup, true)
		o.boolean("echo", "Update", "Echo", u.Echo, false)
		if r.Intn(3) == 0 {
			// digest of a container: of no influence
			o.str("digest", "d", "Update", "Digest", pick(r, otherDigests), otherDigests)
		}
		c.digest = o.value("digest", "d", "Update", "Digest", "sha512")
		return c.success(c.run("update", pos, o), true)
	}
	c.digest = w.cfg.Digest
	c.versionOpts(o, u, "Add")
	o.boolean("deduplicate", "Add", "Deduplicate", u.Dedup, false)
	var inConf, inFlag []string
	for _, f := range w.cfg.Fixity {
		if r.Intn(2) == 0 {
			inConf = append(inConf, toml(f))
		} else {
			inFlag = append(inFlag, f)
		}
	}
	o.set("Add", "Fixity = ["+strings.Join(inConf, ", ")+"]")
	if len(inFlag) > 0 {
		o.flag("fixity", "f", strings.Join(inFlag, pick(r, []string{",", ", "})))
	}
	o.str("default-object-extensions", "", "Add", "ObjectExtensions", c.extObj, nil)
	if !c.create {
		o.str("digest", "d", "Add", "Digest", w.cfg.Digest, otherDigests)
		return c.success(c.run("add", pos, o), true)
	}
	c.create = false
	c.rootOpts(o, true)
	return c.success(c.run("create", pos, o), true)
}

// rootOpts are the options of a new storage root
func (c *cli) rootOpts(o *opts, create bool) {
	w := c.w
	o.str("ocfl-version", "", "Init", "OCFLVersion", w.cfg.Ver, []string{"1.0", "1.1"})
	o.str("default-storageroot-extensions", "", "Init", "StorageRootExtensions", c.extRoot, nil)
	if create {
		// the option stands for both entries
		if c.rng.Intn(2) == 0 {
			o.flag("digest", "d", w.cfg.Digest)
			o.set("Init", "Digest = "+toml(pick(c.rng, otherDigests)))
			o.set("Add", "Digest = "+toml(pick(c.rng, otherDigests)))
		} else {
			o.set("Init", "Digest = "+toml(w.cfg.Digest))
			o.set("Add", "Digest = "+toml(w.cfg.Digest))
		}
		return
	}
	o.str("digest", "d", "Init", "Digest", w.cfg.Digest, otherDigests)
	if c.rng.Intn(4) == 0 {
		o.args = append(o.args, "--no-compress")
	}
}

// untouched runs a command that must not change the directories, and returns whether it kept them
func (c *cli) untouched(what string, f func() *cliRes, dirs ...string) *cliRes {
	before := map[string]map[string]string{}
	for _, d := range dirs {
		before[d] = stamps(d)
	}
	res := f()
	for _, d := range dirs {
		if df := stampDiff(before[d], stamps(d)); df != "" {
			c.violate("touched:"+what, fmt.Sprintf("%s changed %s: %s", what, filepath.Base(d), df))
		}
	}
	return res
}

// refused runs a command that must be refused
func (c *cli) refused(what string, f func() *cliRes, dirs ...string) {
	if c.w.bad {
		return
	}
	res := c.untouched(what, f, dirs...)
	c.w.r.Count("refusals_provoked", 1)
	c.w.r.Case("refused "+what, true)
	if !res.complains() {
		c.violate("silent:"+what, what+": the command cannot do what was asked but does not say so")
	}
	if res.verdict() == "clean" || res.verdict() == "contradictory" {
		c.violate("reported-success:"+what, what+": the command reports success although it cannot do what was asked")
	}
}

func c29(r *Run) {
	r.Assume = []string{"the exit code of a failed command is not judged when the failure is printed"}
	bin := filepath.Join(os.Getenv("VERIF_BIN"), "gocfl")
	if _, err := os.Stat(bin); err != nil {
		panic("the gocfl program is not built: " + err.Error())
	}
	r.Parallel(r.N(110, 1200), func(i int) {
		rng := r.Rng("c29", i)
		var c *Cfg
		if i%3 == 2 {
			c = richCfg(rng, r.Scratch)
		} else {
			c = genCfg(rng)
		}
		c.Indexer, c.Migration, c.Thumb = nil, nil, nil
		w := &World{r: r, rng: rng, cfg: c, objs: map[string]*MObj{}}
		w.tmp = filepath.Join(r.Scratch, fmt.Sprintf("c29-%d", i))
		w.dir = filepath.Join(w.tmp, pick(rng, []string{"root", "a root", "wurzel.d", "c:root", "50%25", "sub/rööt#"}))
		defer w.done()
		k := &cli{w: w, rng: rng, bin: bin, extRoot: filepath.Join(w.tmp, "extroot"), extObj: filepath.Join(w.tmp, "extobj")}
		for _, e := range []error{os.MkdirAll(w.dir, 0755), os.MkdirAll(k.extObj, 0755), writeTree(k.extRoot, extFiles(c.Root)), writeTree(k.extObj, extFiles(c.Obj))} {
			if e != nil {
				panic(e)
			}
		}
		w.exec = k.do
		k.session()
		r.Case(c.Label+fmt.Sprint(len(w.objs)), len(w.objs) > 0)
		r.Sample(map[string]any{"config": c.Label, "history": first(w.log, 4)})
	})
	r.Parallel(r.N(6, 40), func(i int) { c29defaults(r, bin, i) })
}

func (c *cli) session() {
	w, rng, r := c.w, c.rng, c.w.r
	base := *w.cfg
	// a new storage root
	if rng.Intn(3) == 0 {
		c.notEmpty("init", w.dir)
		c.notEmpty("create", w.dir)
	}
	if w.bad {
		return
	}
	if rng.Intn(2) == 0 {
		c.create = true
	} else {
		o := c.opts()
		c.rootOpts(o, false)
		if err := c.success(c.run("init", []string{c.path(w.dir)}, o), true); err != nil {
			w.violate("init-failed", err.Error())
			return
		}
		t := readTree(w.dir)
		if e := oracleRoot(t, nil); len(e) > 0 {
			c.violate("init-invalid", fmt.Sprintf("the new storage root does not conform: %v", first(e, 5)))
		}
		if string(t["0=ocfl_"+w.cfg.Ver]) != "ocfl_"+w.cfg.Ver+"\n" {
			c.violate("init-version", "the new storage root is not of version "+w.cfg.Ver)
		}
		c.rootExts(t)
	}
	nobj := 1 + rng.Intn(3)
	var ids []string
	for k := 0; k < nobj; k++ {
		ids = append(ids, w.newID(k))
	}
	steps := 2 + rng.Intn(5)
	for k := 0; k < steps && !w.bad; k++ {
		id := pick(rng, ids)
		cc := base
		if o := w.objs[id]; o != nil {
			cc = *o.Cfg
		} else if !c.create {
			// the options of the object
			cc.Digest = pick(rng, []string{"sha512", "sha256"})
			if len(cc.Fixity) > 0 && rng.Intn(2) == 0 {
				cc.Fixity = cc.Fixity[:rng.Intn(len(cc.Fixity))]
			}
		}
		w.cfg = &cc
		u := w.genUpd(id, HistOpt{Odd: true, Noop: true, MaxTree: 6})
		u.Areas = false
		c.oneAreaEach(u)
		if m := u.Ops[0]; rng.Intn(4) == 0 {
			// a second folder for the area of the source
			t := map[string][]byte{}
			for k, b := range m.Src {
				if rng.Intn(4) == 0 {
					t[k] = append([]byte("second "), b...)
				}
			}
			for n := rng.Intn(3); n >= 0; n-- {
				t[fmt.Sprintf("second/%d/%s", n, pick(rng, []string{"a.txt", "über.dat", "x y"}))] = genContent(rng)
			}
			u.Ops = append(u.Ops, Op{Kind: "folder", Area: m.Area, Src: t})
			c.w.r.Count("second_folder_for_an_area", 1)
		}
		if w.objs[id] == nil {
			u.Echo = false
		}
		creating := c.create
		s := w.step(id, u)
		r.Count("updates_executed", 1)
		if w.opFailed(s) {
			return
		}
		if w.objs[id] == nil {
			c.violate("no-object", fmt.Sprintf("object %q is not there after the command that was to create it", id))
			return
		}
		// the object is where the layout puts it, the rest is untouched
		for _, d := range diffTrees(s.Before, s.After) {
			p := strings.TrimSuffix(diffParts(d)[1], "/")
			if !creating && !(p == s.Obj.Path || strings.HasPrefix(p, s.Obj.Path+"/") || strings.HasPrefix(s.Obj.Path, p+"/") && diffParts(d)[0] == "added") {
				c.violate("foreign-change", fmt.Sprintf("%s of %q: %s", c.last.Args[0], id, d))
			}
		}
		if creating {
			if string(s.After["0=ocfl_"+w.cfg.Ver]) != "ocfl_"+w.cfg.Ver+"\n" {
				c.violate("create-version", "the new storage root is not of version "+w.cfg.Ver)
			}
			c.rootExts(s.After)
		}
		if _, ok := s.After[s.Obj.Path+"/0=ocfl_object_"+w.cfg.Ver]; !ok {
			c.violate("object-version", fmt.Sprintf("object %q is not of version %s", id, w.cfg.Ver))
		}
		w.monState(s)
		w.monDigests(s)
		c.fixity(s)
		if !w.metaVersioned() {
			w.monVersions(s)
		}
		if w.cfg.MetaFile == "" && !(u.Echo && len(w.cfg.Derived) > 0) {
			// (what an extension stored among the contents is removed by echo)
			w.monDedup(s)
		}
		decl := map[string]string{}
		for _, o := range w.objs {
			decl[o.Path] = o.ID
		}
		if e := oracleRoot(s.After, decl); len(e) > 0 {
			c.violate("invalid", fmt.Sprintf("after %s the storage root does not conform: %v", c.last.Args[0], first(e, 5)))
		}
		if w.bad {
			return
		}
		for n := 1 + rng.Intn(2); n > 0 && !w.bad; n-- {
			c.read(s.After)
		}
		if rng.Intn(2) == 0 {
			c.refuse(ids)
		}
	}
	if len(w.objs) > 0 && !w.bad {
		c.damage()
	}
}

// oneAreaEach: a command takes one folder per area
func (c *cli) oneAreaEach(u *Upd) {
	seen := map[string]bool{}
	var keep []Op
	for _, op := range u.Ops {
		a := op.Area
		if a == "" {
			a = "content"
		}
		if op.Kind == "folder" && !seen[a] {
			seen[a] = true
			keep = append(keep, op)
		}
	}
	u.Ops = keep
}

// rootExts: the configured extensions of the storage root are the ones in force
func (c *cli) rootExts(t Tree) {
	for _, e := range c.w.cfg.Root {
		if e.Name == "initial" {
			continue
		}
		if _, ok := t["extensions/"+e.Name+"/config.json"]; !ok {
			c.violate("root-extension", fmt.Sprintf("the new storage root lacks the configured extension %s", e.Name))
		}
	}
}

// fixity: exactly the requested algorithms
func (c *cli) fixity(s *StepRes) {
	inv, err := readInv(s.After[s.Obj.Path+"/inventory.json"])
	if err != nil {
		return
	}
	for alg := range inv.Fixity {
		ok := false
		for _, f := range c.w.cfg.Fixity {
			ok = ok || f == alg
		}
		if !ok {
			c.violate("fixity-unasked", fmt.Sprintf("object %q has a %s fixity block, asked for was %v", s.ID, alg, c.w.cfg.Fixity))
		}
	}
}

// notEmpty: initialising something that is not empty is refused
func (c *cli) notEmpty(cmd, dir string) {
	w := c.w
	var clean []string
	if len(readTree(dir)) == 0 {
		p := filepath.Join(dir, pick(c.rng, []string{"a file", "0=ocfl_1.0", ".hidden", "sub/"}))
		if strings.HasSuffix(p, "/") {
			os.MkdirAll(p, 0755)
		} else {
			os.WriteFile(p, []byte("ocfl_1.0\n"), 0644)
		}
		clean = append(clean, strings.TrimSuffix(p, "/"))
	}
	c.refused(cmd+" of a root that is not empty", func() *cliRes {
		o := c.opts()
		c.rootOpts(o, cmd == "create")
		pos := []string{c.path(dir)}
		if cmd == "create" {
			src := w.tmpDir()
			writeTree(src, Tree{"a": []byte("a")})
			defer os.RemoveAll(src)
			pos = append(pos, src)
			o.flag("object-id", "i", "some id")
			o.set("Add", "Fixity = []")
			o.str("default-object-extensions", "", "Add", "ObjectExtensions", c.extObj, nil)
			for k, v := range w.cfg.Params {
				o.flag(k, "", v)
			}
		}
		return c.run(cmd, pos, o)
	}, dir)
	for _, p := range clean {
		os.RemoveAll(p)
	}
}

// refuse asks for things that cannot be done
func (c *cli) refuse(ids []string) {
	w, rng := c.w, c.rng
	src := w.tmpDir()
	writeTree(src, Tree{"new file": []byte("new"), "d/x": []byte("y")})
	defer os.RemoveAll(src)
	if w.cfg.MetaFile != "" {
		os.WriteFile(w.cfg.MetaFile, genMetaDoc(rng), 0644)
	}
	have := pick(rng, sortedKeys(w.objs))
	missing := "urn:missing:" + fmt.Sprint(rng.Intn(1000))
	for _, k := range rng.Perm(12)[:4] {
		o := c.opts()
		o.set("Add", "Fixity = []")
		cmd, pos := "add", []string{c.path(w.dir), c.path(src)}
		what := ""
		id := w.newID(900 + rng.Intn(100))
		ext := true
		switch k {
		case 0:
			c.notEmpty("init", w.dir)
			continue
		case 1:
			c.notEmpty("create", w.dir)
			continue
		case 2:
			what, id = "add of an object that exists", have
		case 3:
			what, cmd, id, ext = "update of an object that does not exist", "update", missing, false
			if w.cfg.Layout != "0002-flat-direct-storage-layout" && w.cfg.Layout != "0004-hashed-n-tuple-storage-layout" {
				id = w.newID(900 + rng.Intn(100))
			}
		case 4:
			what = "add of a source that does not exist"
			pos[1] = src + "-missing"
		case 5:
			what, cmd, id, ext = "update from a source that does not exist", "update", have, false
			pos[1] = src + "-missing"
		case 6:
			what = "add with an unknown fixity algorithm"
			o.flag("fixity", "f", pick(rng, []string{"sha3", "sha-512", "crc32,md5", "md5,nothing"}))
		case 7:
			what = "add with an unknown digest algorithm"
			o.flag("digest", "d", pick(rng, []string{"sha3", "sha-512", "none"}))
		case 8:
			what = "add without identifier"
			id = ""
		case 9:
			what = "add with an unknown option"
			o.args = append(o.args, "--no-such-option")
		case 10:
			what = "add without source"
			pos = pos[:1]
		case 11:
			what = "add to something that is no storage root"
			d := w.tmpDir()
			os.MkdirAll(d, 0755)
			defer os.RemoveAll(d)
			if rng.Intn(2) == 0 {
				writeTree(d, Tree{"x": []byte("y")})
			}
			pos[0] = d
		}
		if id != "" {
			o.flag("object-id", "i", id)
		}
		if ext {
			o.str("default-object-extensions", "", "Add", "ObjectExtensions", c.extObj, nil)
		}
		for k, v := range w.cfg.Params {
			o.flag(k, "", v)
		}
		c.refused(what, func() *cliRes { return c.run(cmd, pos, o) }, w.dir, src)
		if w.bad {
			return
		}
	}
}

// read runs a command that only reads, and compares its report with the repository
func (c *cli) read(t Tree) {
	w, rng, r := c.w, c.rng, c.w.r
	o := w.objs[pick(rng, sortedKeys(w.objs))]
	w.cfg = o.Cfg
	how := rng.Intn(3) // everything, by id, by path
	op := c.opts()
	target := func(long, short, section string) {
		switch how {
		case 1:
			op.str(long+"id", short[:min(1, len(short))], section, "ObjectID", o.ID, nil)
		case 2:
			op.str(long+"path", short[min(1, len(short)):], section, "ObjectPath", o.Path, nil)
		}
	}
	switch rng.Intn(5) {
	case 0, 1: // validate
		switch how {
		case 1:
			op.str("object-id", "", "Validate", "ObjectID", o.ID, nil)
		case 2:
			op.str("object-path", "o", "Validate", "ObjectPath", o.Path, nil)
		}
		res := c.untouched("validate", func() *cliRes {
			return c.run(pick(rng, []string{"validate", "validate", "check"}), []string{c.path(w.dir)}, op)
		}, w.dir)
		r.Count("verdicts_compared", 1)
		r.Case("validate clean", true)
		if err := c.success(res, true); err != nil {
			c.violate("verdict-clean", "the repository is valid: "+err.Error())
		}
	case 2: // extract
		c.extract(t, o, how)
	case 3:
		target("object-", "ip", "ExtractMeta")
		out := ""
		if rng.Intn(2) == 0 {
			out = filepath.Join(w.tmp, fmt.Sprintf("meta%d.json", rng.Int63()))
			op.str("output", "", "ExtractMeta", "Output", out, nil)
			defer os.Remove(out)
		}
		if rng.Intn(3) == 0 {
			op.flag("format", "", pick(rng, []string{"json", "JSON"}))
		}
		res := c.untouched("extractmeta", func() *cliRes { return c.run("extractmeta", []string{c.path(w.dir)}, op) }, w.dir)
		if err := c.success(res, true); err != nil {
			c.violate("extractmeta", err.Error())
			return
		}
		js := []byte(res.Out)
		if out != "" {
			js, _ = os.ReadFile(out)
		}
		c.metadata(js, o, how, t, out != "")
	case 4:
		target("object-", "ip", "Stat")
		res := c.untouched("stat", func() *cliRes { return c.run(pick(rng, []string{"stat", "info"}), []string{c.path(w.dir)}, op) }, w.dir)
		if err := c.success(res, true); err != nil {
			c.violate("stat", err.Error())
			return
		}
		c.stat(res, o, how, t)
	}
}

func (c *cli) extract(t Tree, o *MObj, how int) {
	w, rng, r := c.w, c.rng, c.w.r
	v := &vroot{dir: w.dir, t: t, cfg: w.cfg, feat: w.cfg.Label}
	x := &xcase{v: v, obj: o.Path, id: o.ID, man: rng.Intn(2) == 0}
	inv, err := readInv(t[o.Path+"/inventory.json"])
	if err != nil {
		return
	}
	x.alg = inv.Digest
	x.ver = pick(rng, sortedKeys(inv.Versions))
	x.area = "content"
	if w.cfg.Areas != nil {
		x.area = pick(rng, append([]string{"full", "content"}, sortedKeys(w.cfg.Areas)...))
	}
	op := c.opts()
	switch how {
	case 0:
		x.mode, x.ver = 3, "latest"
		for _, id := range sortedKeys(w.objs) {
			ob := w.objs[id]
			inv, err := readInv(t[ob.Path+"/inventory.json"])
			if err != nil {
				return
			}
			st, _, err := resolveVersion(t, ob.Path, inv.Head)
			if err != nil {
				return
			}
			s := &xcase{v: v, obj: ob.Path, id: id, alg: inv.Digest, area: x.area, want: w.cfg.areaFiles(st, x.area)}
			if !s.manifestable() {
				x.man = false
			}
			x.subs = append(x.subs, s)
		}
		for _, s := range x.subs {
			s.man = x.man
		}
		if rng.Intn(2) == 0 {
			op.str("version", "", "Extract", "Version", "latest", nil)
		}
	default:
		st, _, err := resolveVersion(t, o.Path, x.ver)
		if err != nil {
			return
		}
		x.want = w.cfg.areaFiles(st, x.area)
		if !x.manifestable() {
			x.man = false
		}
		if how == 1 {
			op.str("object-id", "i", "Extract", "ObjectID", o.ID, nil)
		} else {
			op.str("object-path", "p", "Extract", "ObjectPath", o.Path, nil)
		}
		if x.ver == inv.Head && rng.Intn(2) == 0 {
			if rng.Intn(2) == 0 {
				op.str("version", "", "Extract", "Version", "latest", nil)
			}
		} else {
			op.str("version", "", "Extract", "Version", x.ver, sortedKeys(inv.Versions))
		}
	}
	if x.area != "content" || rng.Intn(2) == 0 {
		op.flag("area", "", x.area)
	}
	op.boolean("with-manifest", "Extract", "Manifest", x.man, false)
	dst := w.tmpDir()
	os.MkdirAll(dst, 0755)
	defer os.RemoveAll(dst)
	if rng.Intn(5) == 0 {
		writeTree(dst, Tree{"already/here": []byte("x")})
		c.refused("extract into a folder that is not empty", func() *cliRes { return c.run("extract", []string{c.path(w.dir), c.path(dst)}, op) }, w.dir, dst)
		return
	}
	if rng.Intn(6) == 0 && how != 0 {
		op.args = append(op.args, "--version=v99")
		c.refused("extract of an unknown version", func() *cliRes { return c.run("extract", []string{c.path(w.dir), c.path(dst)}, op) }, w.dir)
		return
	}
	res := c.untouched("extract", func() *cliRes { return c.run("extract", []string{c.path(w.dir), c.path(dst)}, op) }, w.dir)
	r.Count("extractions_compared", 1)
	r.Case(fmt.Sprint("extract", x.mode, x.man, x.area), true)
	if err := c.success(res, true); err != nil {
		c.violate("extract-failed", err.Error())
		return
	}
	if bad := x.wrong(readTree(dst)); len(bad) > 0 {
		c.violate("extract-differs", fmt.Sprintf("the extraction reports success but the result is wrong: %v (%s)", first(bad, 6), x))
	}
}

// metadata compares the JSON report of extractmeta with the repository
func (c *cli) metadata(js []byte, o *MObj, how int, t Tree, file bool) {
	w, r := c.w, c.w.r
	d := json.NewDecoder(bytes.NewReader(js))
	var doc struct{ Objects map[string]json.RawMessage }
	if err := d.Decode(&doc); err != nil {
		c.violate("extractmeta-json", "the report is no JSON: "+err.Error())
		return
	}
	if rest, _ := io.ReadAll(d.Buffered()); file && len(bytes.TrimSpace(rest)) > 0 {
		c.violate("extractmeta-json", fmt.Sprintf("the JSON document is followed by %q", clip(string(rest), 100)))
	}
	want := map[string]*MObj{o.ID: o}
	if how == 0 {
		want = w.objs
	}
	r.Count("metadata_reports_compared", 1)
	r.Case("extractmeta", true)
	for id := range doc.Objects {
		if want[id] == nil {
			c.violate("extractmeta-objects", fmt.Sprintf("the report contains object %q which was not asked for", id))
		}
	}
	for id, ob := range want {
		raw, ok := doc.Objects[id]
		if !ok {
			c.violate("extractmeta-objects", fmt.Sprintf("the report lacks object %q", id))
			continue
		}
		var m struct {
			ID, Head, DigestAlgorithm string
			Files                     map[string]struct {
				Checksums    map[string]string
				InternalName []string
				VersionName  map[string][]string
			}
			Versions map[string]struct{ Created, Message, Name, Address string }
		}
		if err := json.Unmarshal(raw, &m); err != nil {
			c.violate("extractmeta-json", "the report is not readable: "+err.Error())
			continue
		}
		ot := t.sub(ob.Path)
		inv, err := readInv(ot["inventory.json"])
		if err != nil {
			return
		}
		if m.ID != id || m.Head != inv.Head || m.DigestAlgorithm != inv.Digest || len(m.Versions) != len(inv.Versions) || len(m.Files) != len(inv.Manifest) {
			c.violate("extractmeta-wrong", fmt.Sprintf("report of %q: id %q head %q digest %q, %d versions, %d files; the repository has head %q digest %q, %d versions, %d files", id, m.ID, m.Head, m.DigestAlgorithm, len(m.Versions), len(m.Files), inv.Head, inv.Digest, len(inv.Versions), len(inv.Manifest)))
			continue
		}
		for dg, ps := range inv.Manifest {
			f, ok := m.Files[dg]
			if !ok || fmt.Sprint(sorted(f.InternalName)) != fmt.Sprint(sorted(ps)) {
				c.violate("extractmeta-wrong", fmt.Sprintf("report of %q: file %s is %v, stored is %v", id, clip(dg, 12), f.InternalName, ps))
				continue
			}
			for alg, cs := range f.Checksums {
				if digest(alg, ot[ps[0]]) != cs {
					c.violate("extractmeta-wrong", fmt.Sprintf("report of %q: %s of %v is reported as %s", id, alg, ps, cs))
				}
			}
			for v := range inv.Versions {
				var names []string
				for l, ld := range inv.logical(v) {
					if strings.EqualFold(ld, dg) {
						names = append(names, l)
					}
				}
				if fmt.Sprint(sorted(f.VersionName[v])) != fmt.Sprint(sorted(names)) {
					c.violate("extractmeta-wrong", fmt.Sprintf("report of %q: names of %s in %s are %v, not %v", id, clip(dg, 12), v, f.VersionName[v], names))
				}
			}
		}
	}
}

// stat compares the statistics with the repository
func (c *cli) stat(res *cliRes, o *MObj, how int, t Tree) {
	w, r := c.w, c.w.r
	want := map[string]*MObj{o.ID: o}
	if how == 0 {
		want = w.objs
	}
	r.Count("statistics_compared", 1)
	r.Case("stat", true)
	out := "\n" + res.Out
	need := func(l string) {
		if !strings.Contains(out, "\n"+l+"\n") {
			c.violate("stat-wrong", fmt.Sprintf("the statistics do not contain %q", l))
		}
	}
	need("OCFL Version: " + w.cfg.Ver)
	for _, ob := range w.objs {
		if want[ob.ID] == nil && strings.Contains(out, "\n["+ob.ID+"] Head: ") {
			c.violate("stat-objects", fmt.Sprintf("the statistics show object %q which was not asked for", ob.ID))
		}
	}
	for id, ob := range want {
		inv, err := readInv(t[ob.Path+"/inventory.json"])
		if err != nil {
			return
		}
		n := 0
		for _, ps := range inv.Manifest {
			n += len(ps)
		}
		need(fmt.Sprintf("[%s] Head: %s", id, inv.Head))
		need(fmt.Sprintf("[%s] Manifest: %d files (%d unique files)", id, n, len(inv.Manifest)))
		for v, iv := range inv.Versions {
			need(fmt.Sprintf("[%s] Version %s", id, v))
			if iv.Message != nil && !strings.Contains(*iv.Message, "\n") {
				need(fmt.Sprintf("[%s]     Message: %s", id, *iv.Message))
			}
			for l := range inv.logical(v) {
				need(fmt.Sprintf("[%s]        %s", id, l))
			}
		}
	}
}

// damage alters the repository and asks for verdicts
func (c *cli) damage() {
	w, rng, r := c.w, c.rng, c.w.r
	t := readTree(w.dir)
	v := &vroot{dir: w.dir, t: t, cfg: w.cfg, feat: w.cfg.Label}
	for _, id := range sortedKeys(w.objs) {
		v.objs = append(v.objs, w.objs[id].Path)
	}
	sortStrings(v.objs)
	for n, tries := 0, 0; n < 4 && tries < 20 && !w.bad; tries++ {
		obj := pick(rng, v.objs)
		a := v.genAlter(rng, obj)
		if a == nil {
			continue
		}
		n++
		var id string
		for _, o := range w.objs {
			if o.Path == obj {
				id = o.ID
			}
		}
		restore := v.apply(a)
		how := rng.Intn(3)
		op := c.opts()
		switch how {
		case 1:
			op.str("object-id", "", "Validate", "ObjectID", id, nil)
		case 2:
			op.str("object-path", "o", "Validate", "ObjectPath", obj, nil)
		}
		w.log = append(w.log, "damage: "+a.desc)
		res := c.untouched("validate", func() *cliRes { return c.run("validate", []string{c.path(w.dir)}, op) }, w.dir)
		r.Count("verdicts_compared", 1)
		r.Case("validate damaged "+a.class, true)
		if vd := res.verdict(); vd == "clean" || vd == "contradictory" || !res.complains() {
			c.violate("verdict-damaged:"+a.class, fmt.Sprintf("after '%s' of %s the verdict is %q", a.desc, obj, vd))
		}
		// the other objects are still valid
		if len(v.objs) > 1 && !w.bad {
			other := pick(rng, v.objs)
			if other != obj {
				op := c.opts()
				op.str("object-path", "o", "Validate", "ObjectPath", other, nil)
				res := c.untouched("validate", func() *cliRes { return c.run("validate", []string{c.path(w.dir)}, op) }, w.dir)
				if err := c.success(res, true); err != nil {
					c.violate("verdict-other", fmt.Sprintf("object %s is valid (only %s is damaged): %v", other, obj, err))
				}
			}
		}
		// operations on the damaged object say so or do the right thing
		if how == 0 && rng.Intn(2) == 0 && !w.bad {
			dst := w.tmpDir()
			os.MkdirAll(dst, 0755)
			op := c.opts()
			op.flag("object-path", "p", obj)
			op.flag("area", "", "full")
			res := c.untouched("extract", func() *cliRes { return c.run("extract", []string{c.path(w.dir), dst}, op) }, w.dir)
			got := readTree(dst).files()
			os.RemoveAll(dst)
			if inv, err := readInv(t[obj+"/inventory.json"]); err == nil && !res.complains() {
				if st, _, err := resolveVersion(t, obj, inv.Head); err == nil {
					if bad := stateDiff(st, got); len(bad) > 0 {
						c.violate("extract-damaged", fmt.Sprintf("after '%s' of %s an extraction reports success but the result is wrong: %v", a.desc, obj, first(bad, 5)))
					}
				}
			}
			r.Count("extractions_of_damaged_objects", 1)
		}
		restore()
		w.log = append(w.log, "repaired")
	}
}

// c29defaults uses the program the way it comes: without configuration and extension folders
func c29defaults(r *Run, bin string, i int) {
	rng := r.Rng("defaults", i)
	w := &World{r: r, rng: rng, cfg: &Cfg{Ver: "1.1", Digest: "sha512"}, objs: map[string]*MObj{}}
	w.tmp = filepath.Join(r.Scratch, fmt.Sprintf("c29d-%d", i))
	w.dir = filepath.Join(w.tmp, "root")
	os.MkdirAll(w.dir, 0755)
	defer w.done()
	c := &cli{w: w, rng: rng, bin: bin}
	run := func(args ...string) *cliRes {
		res := &cliRes{Args: args}
		x := exec.Command(bin, args...)
		x.Dir = w.tmp
		x.Env = append(os.Environ(), "HOME="+w.tmp)
		out, er := &bytes.Buffer{}, &bytes.Buffer{}
		x.Stdout, x.Stderr = out, er
		if err := x.Run(); err != nil {
			res.RC = x.ProcessState.ExitCode()
		}
		res.Out, res.Err = out.String(), er.String()
		c.last = res
		w.log = append(w.log, fmt.Sprintf("gocfl %q -> %d", args, res.RC))
		r.Count("commands_run", 1)
		return res
	}
	state := map[string][]byte{}
	src := filepath.Join(w.tmp, "src")
	fill := func() {
		os.RemoveAll(src)
		t := Tree{}
		for k, b := range genTree(rng, 1+rng.Intn(5), nameGen{}) {
			b = padded(b)
			t[k], state[k] = b, b
		}
		for k := range state {
			for d := range t {
				if strings.HasPrefix(k, d+"/") || strings.HasPrefix(d, k+"/") {
					delete(t, d)
				}
			}
		}
		state2 := map[string][]byte{}
		for k, b := range state {
			if _, ok := t[k]; ok || len(w.ids) > 0 {
				state2[k] = b
			}
		}
		state = state2
		writeTree(src, t)
	}
	id := pick(rng, []string{"id:blah-blubb", "https://example.org/object/1", "simple"})
	fill()
	w.ids = append(w.ids, id)
	var cmds [][]string
	if i%2 == 0 {
		cmds = append(cmds, []string{"create", w.dir, src, "-i", id})
	} else {
		cmds = append(cmds, []string{"init", w.dir}, []string{"add", w.dir, src, "-i", id})
	}
	cmds = append(cmds, []string{"validate", w.dir}, []string{"update", w.dir, src, "-i", id, "-m", "second", "-u", "me", "-a", "mailto:me@x"}, []string{"validate", w.dir})
	for k, a := range cmds {
		if k > 1 && a[0] == "update" {
			old := state
			state = map[string][]byte{}
			fill()
			for l, b := range old {
				ok := true
				for n := range state {
					if strings.HasPrefix(n, l+"/") || strings.HasPrefix(l, n+"/") {
						ok = false
					}
				}
				if _, is := state[l]; !is && ok {
					state[l] = b
				} else if !ok {
					return // a file became a folder
				}
			}
		}
		if err := c.success(run(a...), true); err != nil {
			c.violate("defaults:"+a[0], "with the defaults that come with the program: "+err.Error())
			return
		}
	}
	t := readTree(w.dir)
	ps := findObjects(t)[id]
	if len(ps) != 1 {
		c.violate("defaults-object", fmt.Sprintf("object %q is at %v", id, ps))
		return
	}
	if e := oracleRoot(t, map[string]string{ps[0]: id}); len(e) > 0 {
		c.violate("defaults-invalid", fmt.Sprint(first(e, 5)))
	}
	inv, err := readInv(t[ps[0]+"/inventory.json"])
	if err != nil {
		return
	}
	st, _, err := resolveVersion(t, ps[0], inv.Head)
	if err != nil {
		c.violate("defaults-state", err.Error())
	} else if d := stateDiff(state, st); len(d) > 0 {
		c.violate("defaults-state", fmt.Sprintf("the state differs from what was ingested: %v", first(d, 5)))
	}
	r.Case(fmt.Sprint("defaults", i%2), true)
}
