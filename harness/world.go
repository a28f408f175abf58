package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// MVer is the model of one version of an object.
type MVer struct {
	State           map[string][]byte
	Msg, User, Addr string
	T0, T1          time.Time
	Name            string
}

// MObj is the model of one object.
type MObj struct {
	ID       string
	Path     string // in the storage root
	Versions []MVer
	Cfg      *Cfg  // configuration with which it was created
	F        *fObj // written by another tool
}

// vname is the name of the n-th version (from 1)
func (m *MObj) vname(n int) string {
	if m.F != nil {
		return m.F.vname(n - 1)
	}
	return fmt.Sprintf("v%d", n)
}

func (m *MObj) head() map[string][]byte {
	if len(m.Versions) == 0 {
		return map[string][]byte{}
	}
	return m.Versions[len(m.Versions)-1].State
}

// World is a storage root together with its model.
type World struct {
	slow   bool // the files of a folder are more than a second apart
	r      *Run
	rng    *rand.Rand
	dir    string // storage root directory
	tmp    string
	cfg    *Cfg
	env    *Env
	objs   map[string]*MObj
	ids    []string
	log    []string // description of the history for replay
	nTmp   int
	bad    bool
	meta   []byte
	metas  [][]byte
	titles map[string]string

	exec func(id string, u *Upd) error // performs the updates instead of the library

	bulk int // so many files are added to the next folder

	mm       *metaMonitor
	streamed map[string]bool
}

// StepRes is what a step of a history did.
type StepRes struct {
	ID            string
	Upd           *Upd
	Before, After Tree // whole root
	Prev, Next    map[string][]byte
	Changed       bool
	NewObj        bool
	Obj           *MObj
	Err           error
	Panic         string
	T0, T1        time.Time
	Rec           *Rec
	Meta          []byte // document given to the metafile extension
	NewVersion    string // created version dir ("" if none)
}

func newWorld(r *Run, rng *rand.Rand, c *Cfg, name string) (*World, error) {
	w := &World{r: r, rng: rng, cfg: c, objs: map[string]*MObj{}}
	w.tmp = filepath.Join(r.Scratch, name)
	w.dir = filepath.Join(w.tmp, "root")
	os.MkdirAll(w.dir, 0755)
	var err error
	var p string
	err, p = Guard(func() error {
		var e error
		w.env, e = createRoot(w.dir, c, nil)
		return e
	})
	w.log = append(w.log, "init "+c.Label)
	if p != "" {
		return w, fmt.Errorf("init: %s", p)
	}
	return w, err
}

func (w *World) done() { os.RemoveAll(w.tmp) }

func (w *World) tmpDir() string {
	w.nTmp++
	return filepath.Join(w.tmp, fmt.Sprintf("t%d", w.nTmp))
}

// reload opens the storage root again
func (w *World) reload() error {
	err, p := Guard(func() error {
		e, err := openRoot(w.dir, w.cfg, nil)
		if err == nil {
			if w.env != nil {
				e.Folders = w.env.Folders
			}
			w.env = e
		}
		return err
	})
	if p != "" {
		return fmt.Errorf("reload: %s", p)
	}
	return err
}

const readmeName = "README.md"

// model computes the state after the update
func modelApply(c *Cfg, prev map[string][]byte, u *Upd) map[string][]byte {
	next := map[string][]byte{}
	for k, v := range prev {
		next[k] = v
	}
	ingested := map[string]bool{}
	touched := map[string]bool{}
	echo := func(pre string) {
		for k := range next {
			if (pre == "" || strings.HasPrefix(k, pre+"/")) && !ingested[k] {
				delete(next, k)
			}
		}
	}
	for _, op := range u.Ops {
		switch op.Kind {
		case "folder":
			pre, _ := c.prefix(op.Area)
			touched[pre] = true
			for p, b := range op.Src {
				l := c.logical(op.Area, p)
				next[l] = b
				ingested[l] = true
			}
			if c.Folders != "" {
				for _, d := range dirsOf(op.Src, op.Dirs) {
					l := c.logical(op.Area, path.Join(d, c.Folders))
					next[l] = []byte{}
					ingested[l] = true
				}
			}
			if u.Areas && u.Echo {
				echo(pre)
			}
		case "data", "reader":
			pre, _ := c.prefix(op.Area)
			touched[pre] = true
			for _, n := range append([]string{op.Path}, op.More...) {
				l := c.logical(op.Area, n)
				next[l] = op.Data
				ingested[l] = true
			}
		case "delete":
			delete(next, op.Path)
		case "rename":
			if b, ok := next[op.Path]; ok {
				delete(next, op.Path)
				next[op.To] = b
			}
		}
	}
	if u.Echo && !u.Areas {
		for pre := range touched {
			echo(pre)
		}
	}
	return next
}

func sameState(a, b map[string][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if x, ok := b[k]; !ok || !bytes.Equal(x, v) {
			return false
		}
	}
	return true
}

// pure removes what extensions add on their own (README.md, filesystem area files)
func (c *Cfg) pure(state map[string][]byte) map[string][]byte {
	if c.Areas == nil && len(c.Derived) == 0 && c.Folders == "" {
		return state
	}
	n := map[string][]byte{}
	for k, v := range state {
		if c.derived(k) || c.Folders != "" && path.Base(k) == c.Folders {
			continue
		}
		n[k] = v
	}
	return n
}

// derived: logical paths that extensions themselves write
func (c *Cfg) derived(l string) bool {
	if c.Areas != nil && l == readmeName {
		return true
	}
	if c.FSArea && strings.HasPrefix(l, c.Areas["metadata"]+"/filesystem_") {
		return true
	}
	for _, d := range c.Derived {
		if l == d || strings.HasPrefix(l, d+"_v") {
			return true
		}
	}
	return false
}

// find locates the objects on disk: id -> path
func findObjects(t Tree) map[string][]string {
	res := map[string][]string{}
	for p, b := range t {
		d, f := path.Split(p)
		if f != "inventory.json" || d == "" {
			continue
		}
		d = strings.TrimSuffix(d, "/")
		ok := false
		for _, v := range []string{"1.0", "1.1"} {
			if _, is := t[d+"/0=ocfl_object_"+v]; is {
				ok = true
			}
		}
		if !ok {
			continue
		}
		// not inside another object
		inner := false
		for a := path.Dir(d); a != "."; a = path.Dir(a) {
			if _, is := t[a+"/0=ocfl_object_1.1"]; is {
				inner = true
			}
			if _, is := t[a+"/0=ocfl_object_1.0"]; is {
				inner = true
			}
		}
		if inner {
			continue
		}
		var m struct {
			ID string `json:"id"`
		}
		json.Unmarshal(b, &m)
		res[m.ID] = append(res[m.ID], d)
	}
	return res
}

// step executes an update on an object and maintains the model.
func (w *World) step(id string, u *Upd) *StepRes {
	s := &StepRes{ID: id, Upd: u}
	if w.env != nil {
		s.Rec = w.env.Rec
	}
	s.Before = readTree(w.dir)
	o := w.objs[id]
	if o == nil {
		s.NewObj = true
		o = &MObj{ID: id, Cfg: w.cfg}
	}
	s.Obj = o
	s.Prev = o.head()
	s.Next = modelApply(w.cfg, s.Prev, u)
	s.Changed = !sameState(s.Prev, s.Next) || s.NewObj
	cleanup, err := w.prepare(u)
	defer cleanup()
	if err != nil {
		s.Err = fmt.Errorf("harness: %w", err)
		return s
	}
	s.Meta = w.meta
	// sometimes the object of the previous update is used again instead of loading it
	reuse := w.exec == nil && !s.NewObj && w.env.Last != nil && w.env.Last.GetID() == id && w.rng.Intn(3) == 0
	if reuse {
		w.r.Count("updates_on_the_same_instance", 1)
	}
	s.T0 = time.Now()
	s.Err, s.Panic = Guard(func() error {
		if w.exec != nil {
			return w.exec(id, u)
		}
		if lo := w.env.Last; reuse {
			return w.env.updateObject(lo, u)
		}
		return w.env.update(id, u)
	})
	s.T1 = time.Now()
	s.After = readTree(w.dir)
	w.log = append(w.log, describe(id, u))
	if reuse {
		w.log[len(w.log)-1] += " (same instance)"
	}
	if s.Err != nil || s.Panic != "" {
		return s
	}
	if s.NewObj {
		ps := findObjects(s.After)[id]
		if len(ps) > 0 {
			o.Path = ps[0]
			w.objs[id] = o
			w.ids = append(w.ids, id)
		}
	}
	ver := o.vname(len(o.Versions) + 1)
	if _, ok := s.After[o.Path+"/"+ver+"/inventory.json"]; ok {
		s.NewVersion = ver
	}
	if s.Changed || s.NewVersion != "" {
		o.Versions = append(o.Versions, MVer{State: s.Next, Msg: u.Msg, User: u.User, Addr: u.Addr, T0: s.T0, T1: s.T1, Name: ver})
	}
	return s
}

// prepare writes the sources of the update that have to be real files
func (w *World) prepare(u *Upd) (cleanup func(), err error) {
	var dirs []string
	cleanup = func() {
		for _, d := range dirs {
			os.RemoveAll(d)
		}
	}
	if w.cfg.HasFS || w.exec != nil {
		for i := range u.Ops {
			op := &u.Ops[i]
			if op.Kind != "folder" {
				continue
			}
			op.SrcDir = w.tmpDir()
			if w.exec != nil {
				op.SrcDir += pick(w.rng, []string{"", "", ":1", " x y", "ü#", "%41", "[b]*", ":a:/c", "'q'"})
			}
			os.MkdirAll(op.SrcDir, 0755)
			dirs = append(dirs, op.SrcDir)
			t := Tree{}
			for k, v := range op.Src {
				t[k] = v
			}
			for _, d := range op.Dirs {
				t[d+"/"] = nil
			}
			if err := writeTree(op.SrcDir, t); err != nil {
				return cleanup, err
			}
			op.CTime, op.Link = map[string]time.Time{}, map[string]string{}
			links := ""
			wait := -1
			if w.slow && len(op.Src) > 1 {
				wait = 1 + w.rng.Intn(len(op.Src)-1)
			}
			for i, k := range sortedKeys(op.Src) {
				if i == wait {
					time.Sleep(1100 * time.Millisecond)
				}
				m, f := mtimeFor(k, op.Src[k]), filepath.Join(op.SrcDir, k)
				if w.cfg.HasFS && w.exec == nil && w.rng.Intn(12) == 0 {
					// a link to a file elsewhere
					if links == "" {
						links = w.tmpDir()
						os.MkdirAll(links, 0755)
						dirs = append(dirs, links)
					}
					to := filepath.Join(links, fmt.Sprint(len(op.Link)))
					if err := os.Rename(f, to); err != nil {
						return cleanup, err
					}
					if err := os.Symlink(to, f); err != nil {
						return cleanup, err
					}
					op.Link[k] = to
				}
				os.Chmod(f, modeFor(k, op.Src[k]))
				os.Chtimes(f, m.Add(time.Hour), m)
				if st, err := os.Stat(f); err == nil {
					if sys, ok := st.Sys().(*syscall.Stat_t); ok {
						op.CTime[k] = time.Unix(sys.Ctim.Sec, sys.Ctim.Nsec)
					}
				}
			}
		}
	}
	if w.cfg.MetaFile != "" {
		// a new document, or the same again
		if w.meta == nil || w.rng.Intn(3) != 0 {
			if n := len(w.metas); n > 0 && w.rng.Intn(2) == 0 {
				w.meta = w.metas[w.rng.Intn(n)]
			} else {
				w.meta = genMetaDoc(w.rng)
				w.metas = append(w.metas, w.meta)
			}
		}
		if err := os.WriteFile(w.cfg.MetaFile, w.meta, 0644); err != nil {
			return cleanup, err
		}
	}
	return cleanup, nil
}

func describe(id string, u *Upd) string {
	var b strings.Builder
	fmt.Fprintf(&b, "update %q dedup=%v echo=%v areas=%v:", id, u.Dedup, u.Echo, u.Areas)
	for _, op := range u.Ops {
		switch op.Kind {
		case "folder":
			fmt.Fprintf(&b, " folder[%s]{", op.Area)
			for i, k := range sortedKeys(op.Src) {
				if i > 12 {
					fmt.Fprintf(&b, "…")
					break
				}
				fmt.Fprintf(&b, "%q(%d:%s) ", clip(k, 60), len(op.Src[k]), digest("md5", op.Src[k])[:6])
			}
			fmt.Fprintf(&b, "}")
		case "data", "reader":
			fmt.Fprintf(&b, " %s[%s] %q+%q(%d:%s)", op.Kind, op.Area, op.Path, op.More, len(op.Data), digest("md5", op.Data)[:6])
		case "delete":
			fmt.Fprintf(&b, " delete %q", op.Path)
		case "rename":
			fmt.Fprintf(&b, " rename %q->%q", op.Path, op.To)
		}
	}
	return b.String()
}

// violate reports with the history as replay
func (w *World) violate(key, msg string) {
	w.bad = true
	w.r.Violate(key, msg+"\n    history: "+strings.Join(w.log, "\n             "), map[string]any{"config": w.cfg, "history": w.log})
}

// opFailed reports a fault-free operation that failed. Returns true if it did.
func (w *World) opFailed(s *StepRes) bool {
	if s.Panic != "" {
		w.violate("op-panic:"+panicSite(s.Panic), "an update panicked: "+s.Panic)
		return true
	}
	if s.Err != nil {
		w.violate("op-error:"+errSummary(s.Err), "a legitimate update failed: "+s.Err.Error())
		return true
	}
	return false
}

// ---- history generation ---------------------------------------------------

// HistOpt steers the generator.
type HistOpt struct {
	Odd     bool // odd file names
	Ops     bool // delete, rename, reader ops
	Noop    bool
	Mixed   bool
	MaxTree int
}

// genUpd makes the next update of the object
func (w *World) genUpd(id string, opt HistOpt) *Upd {
	rng := w.rng
	u := genUpdHead(rng)
	u.Dedup = w.cfg.Dedup || rng.Intn(3) > 0
	g := nameGen{odd: opt.Odd}
	o := w.objs[id]
	cur := map[string][]byte{}
	if o != nil {
		cur = w.cfg.pure(o.head())
	}
	max := opt.MaxTree
	if max == 0 {
		max = 8
	}
	areas := []string{""}
	if w.cfg.Areas != nil {
		for _, a := range sortedKeys(w.cfg.Areas) {
			if a == "metadata" && (w.cfg.FSArea || len(w.cfg.Derived) > 0) {
				continue
			}
			areas = append(areas, a)
		}
	}
	area := pick(rng, areas)
	if o == nil && rng.Intn(2) == 0 {
		area = ""
	}
	curArea := map[string][]byte{}
	pre, _ := w.cfg.prefix(area)
	for k, v := range cur {
		if pre == "" {
			curArea[k] = v
		} else if strings.HasPrefix(k, pre+"/") {
			curArea[k[len(pre)+1:]] = v
		}
	}
	mutate := func() map[string][]byte {
		t := map[string][]byte{}
		for k, v := range curArea {
			t[k] = v
		}
		keys := sortedKeys(t)
		for n := 1 + rng.Intn(4); n > 0; n-- {
			switch rng.Intn(6) {
			case 0, 1:
				t[g.file(rng)] = genContent(rng)
			case 2: // change
				if len(keys) > 0 {
					t[pick(rng, keys)] = genContent(rng)
				}
			case 3: // drop
				if len(keys) > 1 {
					delete(t, pick(rng, keys))
				}
			case 4: // move
				if len(keys) > 0 {
					k := pick(rng, keys)
					if b, ok := t[k]; ok {
						delete(t, k)
						t[g.file(rng)] = b
					}
				}
			case 5: // swap contents
				if len(keys) > 1 {
					a, b := pick(rng, keys), pick(rng, keys)
					if _, ok := t[a]; ok {
						if _, ok := t[b]; ok {
							t[a], t[b] = t[b], t[a]
						}
					}
				}
			}
		}
		return t
	}
	kind := rng.Intn(10)
	if o == nil {
		kind = 0
		if rng.Intn(8) == 0 && opt.Ops {
			kind = 6
		}
	}
	switch {
	case kind <= 1: // contribute new files
		t := genTree(rng, 1+rng.Intn(max), g)
		u.Ops = append(u.Ops, Op{Kind: "folder", Area: area, Src: t, Dirs: pickDirs(rng)})
	case kind == 2: // contribute mutated
		u.Ops = append(u.Ops, Op{Kind: "folder", Area: area, Src: mutate()})
	case kind == 3 || kind == 4: // echo mutated
		u.Echo = true
		u.Ops = append(u.Ops, Op{Kind: "folder", Area: area, Src: mutate(), Dirs: pickDirs(rng)})
		u.Areas = rng.Intn(4) == 0
	case kind == 5: // revert to an older version (echo)
		v := o.Versions[rng.Intn(len(o.Versions))]
		t := map[string][]byte{}
		for k, b := range w.cfg.pure(v.State) {
			if pre == "" {
				t[k] = b
			} else if strings.HasPrefix(k, pre+"/") {
				t[k[len(pre)+1:]] = b
			}
		}
		u.Echo = rng.Intn(2) == 0
		u.Ops = append(u.Ops, Op{Kind: "folder", Area: area, Src: t})
	case kind == 6 && opt.Ops:
		for n := 1 + rng.Intn(3); n > 0; n-- {
			op := Op{Kind: pick(rng, []string{"data", "reader"}), Area: area, Path: g.file(rng), Data: genContent(rng)}
			if op.Kind == "reader" {
				for rng.Intn(3) == 0 {
					op.More = append(op.More, g.file(rng))
				}
			}
			u.Ops = append(u.Ops, op)
		}
		if o != nil && rng.Intn(3) == 0 {
			u.Echo = true
			if rng.Intn(3) == 0 {
				u.Ops = append(u.Ops, Op{Kind: "folder", Area: pick(rng, areas), Src: genTree(rng, 1+rng.Intn(3), g)})
			}
		}
	case kind == 7 && opt.Ops && len(cur) > 1:
		keys := sortedKeys(cur)
		rng.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		for n := 1 + rng.Intn(2); n > 0 && len(keys) > 0; n-- {
			k := keys[0]
			keys = keys[1:]
			if rng.Intn(2) == 0 {
				u.Ops = append(u.Ops, Op{Kind: "delete", Path: k})
			} else {
				u.Ops = append(u.Ops, Op{Kind: "rename", Path: k, To: w.cfg.logical(area, fmt.Sprintf("renamed/%d-%s", rng.Intn(10000), path.Base(g.file(rng))))})
			}
		}
	case kind == 8 && opt.Noop: // unchanged input
		u.Echo = rng.Intn(2) == 0
		u.Ops = append(u.Ops, Op{Kind: "folder", Area: area, Src: curArea})
		u.Dedup = true
	default: // several areas / folders in one update
		u.Ops = append(u.Ops, Op{Kind: "folder", Area: area, Src: mutate()})
		a2 := pick(rng, areas)
		if p2, _ := w.cfg.prefix(a2); p2 != pre {
			u.Ops = append(u.Ops, Op{Kind: "folder", Area: a2, Src: genTree(rng, 1+rng.Intn(3), g)})
			u.Echo = rng.Intn(3) == 0
			u.Areas = u.Echo && rng.Intn(3) == 0
		}
	}
	if opt.Mixed && rng.Intn(3) == 0 && len(u.Ops) == 1 && u.Ops[0].Kind == "folder" && !u.Echo {
		k := sortedKeys(u.Ops[0].Src)
		if len(k) > 1 {
			u.Ops = append(u.Ops, Op{Kind: pick(rng, []string{"delete", "rename"}), Path: w.cfg.logical(area, pick(rng, k)), To: w.cfg.logical(area, fmt.Sprintf("moved/%d", rng.Intn(1000)))})
		}
	}
	if w.bulk > 0 && len(u.Ops) > 0 && u.Ops[0].Kind == "folder" && kind != 8 {
		for n := 0; n < w.bulk; n++ {
			u.Ops[0].Src[fmt.Sprintf("bulk/%02d/f%03d", n%7, n)] = []byte(fmt.Sprint("bulk content ", n*3/4))
		}
		w.bulk = 0
	}
	w.repair(u, cur)
	return u
}

func pickDirs(rng *rand.Rand) []string {
	if rng.Intn(3) == 0 {
		return []string{"empty dir"}
	}
	return nil
}

// repair drops inputs that would make a logical path also a directory, and paths reserved by extensions
func (w *World) repair(u *Upd, cur map[string][]byte) {
	all := map[string]bool{}
	for k := range cur {
		all[k] = true
	}
	conflict := func(l string) bool {
		for d := path.Dir(l); d != "."; d = path.Dir(d) {
			if all[d] {
				return true
			}
		}
		for k := range all {
			if strings.HasPrefix(k, l+"/") {
				return true
			}
		}
		return w.cfg.derived(l) || w.cfg.Areas != nil && strings.HasPrefix(l, w.cfg.Areas["metadata"]+"/filesystem")
	}
	for i := range u.Ops {
		op := &u.Ops[i]
		if w.cfg.Index {
			op.Data = padded(op.Data)
			for p, b := range op.Src {
				op.Src[p] = padded(b)
			}
		}
		switch op.Kind {
		case "folder":
			for _, p := range sortedKeys(op.Src) {
				l := w.cfg.logical(op.Area, p)
				if conflict(l) {
					delete(op.Src, p)
					continue
				}
				all[l] = true
			}
			var keep []string
			for _, d := range op.Dirs {
				ok := true
				for p := range op.Src {
					if p == d || strings.HasPrefix(d, p+"/") {
						ok = false
					}
				}
				if ok {
					keep = append(keep, d)
				}
			}
			op.Dirs = keep
		case "data", "reader":
			names := append([]string{op.Path}, op.More...)
			var ok []string
			for _, n := range names {
				l := w.cfg.logical(op.Area, n)
				dup := false
				for _, x := range ok {
					dup = dup || x == n
				}
				if conflict(l) || dup {
					continue
				}
				all[l] = true
				ok = append(ok, n)
			}
			if len(ok) == 0 {
				ok = []string{fmt.Sprintf("fresh-%d", w.rng.Intn(1<<30))}
				all[w.cfg.logical(op.Area, ok[0])] = true
			}
			op.Path, op.More = ok[0], ok[1:]
		case "rename":
			if conflict(op.To) || all[op.To] {
				op.Kind = "delete"
			} else {
				all[op.To] = true
			}
		}
	}
}

func (w *World) newID(n int) string { return idFor(w.rng, w.cfg.Layout, n) }

// mtimeFor is the modification time given to a source file
func mtimeFor(p string, b []byte) time.Time {
	h := digest("md5", append([]byte(p+"|"), b...))
	var n int64
	fmt.Sscanf(h[:8], "%x", &n)
	return time.Unix(1000000000+n%500000000, n%1000000000)
}

// modeFor is the permission given to a source file
func modeFor(p string, b []byte) os.FileMode {
	m := []os.FileMode{0644, 0600, 0755, 0444, 0640, 0777}
	return m[int(digest("md5", append([]byte(p+"!"), b...))[0])%len(m)]
}

// dirsOf lists the directories of a source tree
func dirsOf(src map[string][]byte, dirs []string) []string {
	m := map[string]bool{".": true}
	add := func(d string) {
		for ; d != "."; d = path.Dir(d) {
			m[d] = true
		}
	}
	for p := range src {
		add(path.Dir(p))
	}
	for _, d := range dirs {
		add(d)
	}
	return sortedKeys(m)
}

// padded makes contents long enough for the stream dispatcher of the indexer library, which loses shorter ones
func padded(b []byte) []byte {
	if len(b) == 0 || len(b) >= 512 {
		return b
	}
	return append(append(append([]byte{}, b...), '\n'), bytes.Repeat([]byte("filler. "), 70)...)
}
