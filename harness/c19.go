package main

// The extension manager: order, exclusion, completeness, errors. Probe extensions record every call.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/je4/filesystem/v3/pkg/osfsrw"
	"github.com/je4/filesystem/v3/pkg/writefs"
	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
	"github.com/je4/utils/v2/pkg/checksum"
)

func init() {
	register("C19", "exploration", "managers with random probe extensions (all hooks), order and exclusion settings, each built in several load orders; every hook called; then objects created, reloaded, updated and extracted with probes active, with a failure planted at every kind of hook call; calls, order, bytes and results compared with the configuration; non-trivial when at least two probes share a hook", c19)
}

const (
	hSRP     = "StorageRootPath"
	hContent = "ObjectContentPath"
	hExtract = "ObjectExtractPath"
	hState   = "ObjectExternalPath"
	hChange  = "ContentChange"
	hObject  = "ObjectChange"
	hFixity  = "FixityDigest"
	hMeta    = "Metadata"
	hArea    = "Area"
	hStream  = "Stream"
	hNewVer  = "NewVersion"
)

// pcall is one call of a probe
type pcall struct {
	Hook, Fn, Ext string
	Arg           string // file or path the call is about
	data          []byte
	full          bool
}

type plog struct {
	mu    sync.Mutex
	calls []*pcall
	rng   *rand.Rand
	fail  string // Fn|Ext
	occ   int
	mode  string // stream: before, mid, after
	hit   bool
	delay bool
}

var errProbe = errors.New("probe failed")

func (l *plog) reset() []*pcall {
	l.mu.Lock()
	defer l.mu.Unlock()
	c := l.calls
	l.calls = nil
	return c
}

func (l *plog) n(n int) int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.rng.Intn(n)
}

// pcore is what all probes have in common
type pcore struct {
	name string
	kind int
	cfg  map[string]any
	fsys fs.FS
	log  *plog
	read string // what the probe does with a stream: all, part, none, slow
	area string
	need bool // asks for a further version once
	adds bool // adds a file to the further version
}

func (p *pcore) call(hook, fn, arg string) (*pcall, error) {
	p.log.mu.Lock()
	defer p.log.mu.Unlock()
	c := &pcall{Hook: hook, Fn: fn, Ext: p.name, Arg: arg}
	p.log.calls = append(p.log.calls, c)
	if p.log.fail == fn+"|"+p.name {
		if p.log.occ == 0 {
			p.log.hit = true
			p.log.occ--
			return c, errProbe
		}
		p.log.occ--
	}
	return c, nil
}

func (p *pcore) GetName() string                   { return p.name }
func (p *pcore) SetFS(fsys fs.FS, create bool)     { p.fsys = fsys }
func (p *pcore) GetFS() fs.FS                      { return p.fsys }
func (p *pcore) SetParams(map[string]string) error { _, err := p.call("", "SetParams", ""); return err }
func (p *pcore) GetConfig() any                    { return p.cfg }
func (p *pcore) IsRegistered() bool                { return true }
func (p *pcore) Terminate() error                  { _, err := p.call("", "Terminate", ""); return err }
func (p *pcore) WriteConfig() error {
	if _, err := p.call("", "WriteConfig", ""); err != nil {
		return err
	}
	if p.fsys == nil {
		return nil
	}
	w, err := writefs.Create(p.fsys, "config.json")
	if err != nil {
		return err
	}
	b, _ := json.Marshal(p.cfg)
	if _, err := w.Write(b); err != nil {
		w.Close()
		return err
	}
	return w.Close()
}

func (p *pcore) short() string { return p.name[len(p.name)-1:] }

// wrap is what a path hook of the probe does with a path
func (p *pcore) wrap(hook, s string) string {
	if s == "." {
		return s
	}
	return strings.ToLower(hook[6:8]) + p.short() + "/" + s
}

type mSRP struct{ c *pcore }

func (m mSRP) WriteLayout(fsys fs.FS) error { _, err := m.c.call(hSRP, "WriteLayout", ""); return err }
func (m mSRP) BuildStorageRootPath(_ ocfl.StorageRoot, id string) (string, error) {
	if _, err := m.c.call(hSRP, "BuildStorageRootPath", id); err != nil {
		return "", err
	}
	return m.c.short() + "_" + id, nil
}

type mContent struct{ c *pcore }

func (m mContent) BuildObjectManifestPath(_ ocfl.Object, p, area string) (string, error) {
	if _, err := m.c.call(hContent, "BuildObjectManifestPath", p); err != nil {
		return "", err
	}
	return m.c.wrap(hContent, p), nil
}

type mState struct{ c *pcore }

func (m mState) BuildObjectStatePath(_ ocfl.Object, p, area string) (string, error) {
	if _, err := m.c.call(hState, "BuildObjectStatePath", p); err != nil {
		return "", err
	}
	return m.c.wrap(hState, p), nil
}

type mExtract struct{ c *pcore }

func (m mExtract) BuildObjectExtractPath(_ ocfl.Object, p, area string) (string, error) {
	if _, err := m.c.call(hExtract, "BuildObjectExtractPath", p); err != nil {
		return "", err
	}
	return m.c.wrap(hExtract, p), nil
}

type mChange struct{ c *pcore }

func (m mChange) AddFileBefore(_ ocfl.Object, _ fs.FS, source, dest, area string, isDir bool) error {
	_, err := m.c.call(hChange, "AddFileBefore", dest)
	return err
}
func (m mChange) UpdateFileBefore(_ ocfl.Object, _ fs.FS, source, dest, area string, isDir bool) error {
	_, err := m.c.call(hChange, "UpdateFileBefore", dest)
	return err
}
func (m mChange) DeleteFileBefore(_ ocfl.Object, dest, area string) error {
	_, err := m.c.call(hChange, "DeleteFileBefore", dest)
	return err
}
func (m mChange) AddFileAfter(_ ocfl.Object, _ fs.FS, source []string, internal, digest, area string, isDir bool) error {
	arg := internal
	if isDir {
		arg += "/"
	}
	_, err := m.c.call(hChange, "AddFileAfter", arg)
	return err
}
func (m mChange) UpdateFileAfter(_ ocfl.Object, _ fs.FS, source, dest, area string, isDir bool) error {
	_, err := m.c.call(hChange, "UpdateFileAfter", dest)
	return err
}
func (m mChange) DeleteFileAfter(_ ocfl.Object, dest, area string) error {
	_, err := m.c.call(hChange, "DeleteFileAfter", dest)
	return err
}

type mObject struct{ c *pcore }

func (m mObject) UpdateObjectBefore(ocfl.Object) error {
	_, err := m.c.call(hObject, "UpdateObjectBefore", "")
	return err
}
func (m mObject) UpdateObjectAfter(ocfl.Object) error {
	_, err := m.c.call(hObject, "UpdateObjectAfter", "")
	return err
}

type mFixity struct{ c *pcore }

func (m mFixity) GetFixityDigests() []checksum.DigestAlgorithm {
	m.c.call(hFixity, "GetFixityDigests", "")
	return []checksum.DigestAlgorithm{checksum.DigestMD5, checksum.DigestAlgorithm("x-" + m.c.short())}
}

type mMeta struct{ c *pcore }

func (m mMeta) GetMetadata(ocfl.Object) (map[string]any, error) {
	if _, err := m.c.call(hMeta, "GetMetadata", ""); err != nil {
		return nil, err
	}
	return map[string]any{"": m.c.name, "dig" + m.c.short(): m.c.name, "common": m.c.short()}, nil
}

type mArea struct{ c *pcore }

func (m mArea) GetAreaPath(_ ocfl.Object, area string) (string, error) {
	if _, err := m.c.call(hArea, "GetAreaPath", area); err != nil {
		return "", err
	}
	if m.c.area == area || m.c.area == "*" {
		return "area-" + m.c.short(), nil
	}
	return "", nil
}

type mNewVer struct{ c *pcore }

func (m mNewVer) NeedNewVersion(ocfl.Object) (bool, error) {
	if _, err := m.c.call(hNewVer, "NeedNewVersion", ""); err != nil {
		return false, err
	}
	n := m.c.need
	m.c.need = false
	return n, nil
}
func (m mNewVer) DoNewVersion(o ocfl.Object) error {
	if _, err := m.c.call(hNewVer, "DoNewVersion", ""); err != nil {
		return err
	}
	if m.c.adds {
		_, err := o.AddReader(io.NopCloser(strings.NewReader("derived by "+m.c.name)), []string{"derived-" + m.c.short()}, "", true, false)
		return err
	}
	return nil
}

type mStream struct{ c *pcore }

func (m mStream) StreamObject(_ ocfl.Object, r io.Reader, stateFiles []string, dest string) error {
	c, err := m.c.call(hStream, "StreamObject", dest)
	mode := m.c.log.mode
	if err != nil && mode == "before" {
		return err
	}
	limit := -1
	switch {
	case err != nil && mode == "mid":
		limit = 10
	case m.c.read == "part":
		limit = 3 + m.c.log.n(5000)
	case m.c.read == "none":
		limit = 0
	}
	buf := make([]byte, 1+m.c.log.n(40000))
	slow := 0
	for limit < 0 || len(c.data) < limit {
		b := buf
		if limit >= 0 && limit-len(c.data) < len(b) {
			b = b[:limit-len(c.data)]
		}
		n, rerr := r.Read(b)
		c.data = append(c.data, b[:n]...)
		if m.c.read == "slow" && slow < 5 {
			slow++
			time.Sleep(time.Millisecond)
		}
		if rerr == io.EOF {
			c.full = true
			break
		}
		if rerr != nil {
			return rerr
		}
	}
	return err
}

type (
	p0 struct {
		*pcore
		mContent
		mState
		mExtract
	}
	p1 struct {
		*pcore
		mChange
		mStream
	}
	p2 struct {
		*pcore
		mStream
		mMeta
	}
	p3 struct {
		*pcore
		mObject
		mNewVer
		mFixity
		mMeta
		mArea
	}
	p4 struct {
		*pcore
		mContent
		mState
		mExtract
		mChange
		mObject
		mFixity
		mMeta
		mArea
		mNewVer
		mStream
	}
	p5 struct {
		*pcore
		mSRP
	}
	p6 struct {
		*pcore
		mContent
		mStream
		mObject
	}
	p7 struct {
		*pcore
		mSRP
		mArea
		mExtract
		mChange
	}
)

var probeHooks = map[int][]string{
	0: {hContent, hState, hExtract},
	1: {hChange, hStream},
	2: {hStream, hMeta},
	3: {hObject, hNewVer, hFixity, hMeta, hArea},
	4: {hContent, hState, hExtract, hChange, hObject, hFixity, hMeta, hArea, hNewVer, hStream},
	5: {hSRP},
	6: {hContent, hStream, hObject},
	7: {hSRP, hArea, hExtract, hChange},
}

func (p *pcore) ext() ocfl.Extension {
	switch p.kind {
	case 0:
		return &p0{p, mContent{p}, mState{p}, mExtract{p}}
	case 1:
		return &p1{p, mChange{p}, mStream{p}}
	case 2:
		return &p2{p, mStream{p}, mMeta{p}}
	case 3:
		return &p3{p, mObject{p}, mNewVer{p}, mFixity{p}, mMeta{p}, mArea{p}}
	case 4:
		return &p4{p, mContent{p}, mState{p}, mExtract{p}, mChange{p}, mObject{p}, mFixity{p}, mMeta{p}, mArea{p}, mNewVer{p}, mStream{p}}
	case 5:
		return &p5{p, mSRP{p}}
	case 6:
		return &p6{p, mContent{p}, mStream{p}, mObject{p}}
	}
	return &p7{p, mSRP{p}, mArea{p}, mExtract{p}, mChange{p}}
}

// probeSet is a configuration: probes, order, exclusion
type probeSet struct {
	probes []pcore
	sort   map[string][]string
	excl   map[string][][]string
}

var allHooks = []string{hSRP, hContent, hExtract, hState, hChange, hObject, hFixity, hMeta, hArea, hStream, hNewVer}

func genProbes(rng *rand.Rand, kinds []int) *probeSet {
	s := &probeSet{sort: map[string][]string{}, excl: map[string][][]string{}}
	letters := []string{"a", "b", "c", "d", "e", "f", "g", "h"}
	rng.Shuffle(len(letters), func(i, j int) { letters[i], letters[j] = letters[j], letters[i] })
	n := 2 + rng.Intn(6)
	for i := 0; i < n; i++ {
		name := "NNNN-probe-" + letters[i]
		if rng.Intn(4) == 0 {
			name = pick(rng, []string{"0099-", "a", "Z-", "zz."}) + letters[i]
		}
		k := pick(rng, kinds)
		p := pcore{name: name, kind: k, cfg: map[string]any{"extensionName": name, "kind": k}, read: pick(rng, []string{"all", "all", "all", "part", "none", "slow"}), area: pick(rng, []string{"", "x", "y", "*"}), need: rng.Intn(4) == 0}
		p.cfg["read"], p.cfg["area"] = p.read, p.area
		s.probes = append(s.probes, p)
	}
	names := []string{"NNNN-absent", "NNNN-missing"}
	for _, p := range s.probes {
		names = append(names, p.name)
	}
	perm := func() []string {
		l := append([]string{}, names...)
		rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		return l
	}
	for _, h := range allHooks {
		if rng.Intn(3) > 0 {
			s.sort[h] = perm()[:1+rng.Intn(len(names))]
		}
		if rng.Intn(3) == 0 {
			l := perm()
			for len(l) > 1 && rng.Intn(3) > 0 {
				k := 1 + rng.Intn(len(l)-1)
				s.excl[h] = append(s.excl[h], l[:k])
				l = l[k:]
			}
		}
	}
	return s
}

// active are the probes that stay active for a hook (in no order)
func (s *probeSet) active(hook string) map[string]bool {
	m := map[string]bool{}
	for _, p := range s.probes {
		for _, h := range probeHooks[p.kind] {
			if h == hook {
				m[p.name] = true
			}
		}
	}
	for _, g := range s.excl[hook] {
		found := false
		for _, n := range g {
			if m[n] && found {
				delete(m, n)
			} else if m[n] {
				found = true
			}
		}
	}
	return m
}

// ordered checks a sequence of called extensions against the configuration
func (s *probeSet) ordered(hook string, seq []string) string {
	act := s.active(hook)
	seen := map[string]bool{}
	for _, n := range seq {
		if seen[n] {
			return n + " called twice"
		}
		seen[n] = true
		if !act[n] {
			return n + " called although excluded"
		}
	}
	for n := range act {
		if !seen[n] {
			return n + " not called"
		}
	}
	return s.placed(hook, seq)
}

// placed checks the order only
func (s *probeSet) placed(hook string, seq []string) string {
	pos := func(n string) int {
		for i, m := range s.sort[hook] {
			if m == n {
				return i
			}
		}
		return 1000
	}
	for i := 1; i < len(seq); i++ {
		if pos(seq[i-1]) > pos(seq[i]) {
			return fmt.Sprintf("%s called before %s, configured order %v", seq[i-1], seq[i], s.sort[hook])
		}
	}
	return ""
}

func (s *probeSet) String() string {
	l := []string{}
	for _, p := range s.probes {
		l = append(l, fmt.Sprintf("%s(kind %d,%s,area %s,new %v)", p.name, p.kind, p.read, p.area, p.need))
	}
	return fmt.Sprintf("probes %v sort %v exclusion %v", l, s.sort, s.excl)
}

// instance builds fresh probes, in the given order
func (s *probeSet) instance(log *plog, order []int) []ocfl.Extension {
	r := []ocfl.Extension{}
	for _, i := range order {
		p := s.probes[i]
		p.log = log
		r = append(r, (&p).ext())
	}
	return r
}

func (s *probeSet) specs() []ExtSpec { return mgrSpecs(s.sort, s.excl) }

// hookFn describes how a hook function is called at the manager
type hookFn struct {
	hook, fn string
	run      func(m ocfl.ExtensionManager, o ocfl.Object) (any, error)
	first    bool // stops at the first extension with a result
	noErr    bool
	path     string // path hook: the result is the fold over the extensions
}

func hookFns() []hookFn {
	var nofs fs.FS
	return []hookFn{
		{hook: hSRP, fn: "BuildStorageRootPath", path: "srp", run: func(m ocfl.ExtensionManager, o ocfl.Object) (any, error) { return m.BuildStorageRootPath(nil, "id") }},
		{hook: hContent, fn: "BuildObjectManifestPath", path: hContent, run: func(m ocfl.ExtensionManager, o ocfl.Object) (any, error) {
			return m.BuildObjectManifestPath(o, "p/q", "x")
		}},
		{hook: hState, fn: "BuildObjectStatePath", path: hState, run: func(m ocfl.ExtensionManager, o ocfl.Object) (any, error) {
			return m.BuildObjectStatePath(o, "p/q", "x")
		}},
		{hook: hExtract, fn: "BuildObjectExtractPath", path: hExtract, run: func(m ocfl.ExtensionManager, o ocfl.Object) (any, error) {
			return m.BuildObjectExtractPath(o, "p/q", "x")
		}},
		{hook: hChange, fn: "AddFileBefore", run: func(m ocfl.ExtensionManager, o ocfl.Object) (any, error) {
			return nil, m.AddFileBefore(o, nofs, "s", "d", "x", false)
		}},
		{hook: hChange, fn: "UpdateFileBefore", run: func(m ocfl.ExtensionManager, o ocfl.Object) (any, error) {
			return nil, m.UpdateFileBefore(o, nofs, "s", "d", "x", false)
		}},
		{hook: hChange, fn: "DeleteFileBefore", run: func(m ocfl.ExtensionManager, o ocfl.Object) (any, error) { return nil, m.DeleteFileBefore(o, "d", "x") }},
		{hook: hChange, fn: "AddFileAfter", run: func(m ocfl.ExtensionManager, o ocfl.Object) (any, error) {
			return nil, m.AddFileAfter(o, nofs, []string{"s"}, "d", "00", "x", false)
		}},
		{hook: hChange, fn: "UpdateFileAfter", run: func(m ocfl.ExtensionManager, o ocfl.Object) (any, error) {
			return nil, m.UpdateFileAfter(o, nofs, "s", "d", "x", false)
		}},
		{hook: hChange, fn: "DeleteFileAfter", run: func(m ocfl.ExtensionManager, o ocfl.Object) (any, error) { return nil, m.DeleteFileAfter(o, "d", "x") }},
		{hook: hObject, fn: "UpdateObjectBefore", run: func(m ocfl.ExtensionManager, o ocfl.Object) (any, error) { return nil, m.UpdateObjectBefore(o) }},
		{hook: hObject, fn: "UpdateObjectAfter", run: func(m ocfl.ExtensionManager, o ocfl.Object) (any, error) { return nil, m.UpdateObjectAfter(o) }},
		{hook: hFixity, fn: "GetFixityDigests", noErr: true, run: func(m ocfl.ExtensionManager, o ocfl.Object) (any, error) { return m.GetFixityDigests(), nil }},
		{hook: hMeta, fn: "GetMetadata", run: func(m ocfl.ExtensionManager, o ocfl.Object) (any, error) { return m.GetMetadata(o) }},
		{hook: hArea, fn: "GetAreaPath", first: true, run: func(m ocfl.ExtensionManager, o ocfl.Object) (any, error) { return m.GetAreaPath(o, "x") }},
		{hook: hNewVer, fn: "NeedNewVersion", first: true, run: func(m ocfl.ExtensionManager, o ocfl.Object) (any, error) { return m.NeedNewVersion(o) }},
		{hook: hNewVer, fn: "DoNewVersion", run: func(m ocfl.ExtensionManager, o ocfl.Object) (any, error) { return nil, m.DoNewVersion(o) }},
		{hook: "", fn: "SetParams", run: func(m ocfl.ExtensionManager, o ocfl.Object) (any, error) {
			return nil, m.SetParams(map[string]string{})
		}},
		{hook: "", fn: "Terminate", run: func(m ocfl.ExtensionManager, o ocfl.Object) (any, error) { return nil, m.Terminate() }},
	}
}

func callsOf(c []*pcall, fn string) []string {
	r := []string{}
	for _, x := range c {
		if x.Fn == fn {
			r = append(r, x.Ext)
		}
	}
	return r
}

func perms(rng *rand.Rand, n, k int) [][]int {
	r := [][]int{}
	for i := 0; i < k; i++ {
		r = append(r, rng.Perm(n))
	}
	return r
}

// fold is the path after all extensions of the sequence
func (s *probeSet) fold(hook string, seq []string, p string) string {
	for _, n := range seq {
		for i := range s.probes {
			if s.probes[i].name == n {
				if hook == "srp" {
					p = s.probes[i].short() + "_" + p
				} else {
					p = s.probes[i].wrap(hook, p)
				}
			}
		}
	}
	return p
}

// manager builds a manager by adding the extensions in the given order (or through the factory)
func (s *probeSet) manager(r *Run, log *plog, order []int, viaFactory bool) (ocfl.ExtensionManager, error) {
	if !viaFactory {
		m, err := extension.NewGOCFLExtensionManager(&ocfl.ExtensionManagerConfig{ExtensionConfig: &ocfl.ExtensionConfig{ExtensionName: mgrName}, Sort: s.sort, Exclusion: s.excl})
		if err != nil {
			return nil, err
		}
		for _, e := range s.instance(log, order) {
			if err := m.Add(e); err != nil {
				return nil, err
			}
		}
		m.Finalize()
		return m, nil
	}
	c := &Cfg{Probes: s, ProbeLog: log}
	f, err := newFactory(c)
	if err != nil {
		return nil, err
	}
	return f.LoadExtensions(NewMemFS(extFiles(s.folders(order))), nil)
}

// folders are the extension folders, named such that they are loaded in the given order
func (s *probeSet) folders(order []int) []ExtSpec {
	l := s.specs()
	for k, i := range order {
		e := ExtSpec{Name: fmt.Sprintf("%02d-%s", k, s.probes[i].name), Cfg: s.probes[i].cfg}
		l = append(l, e)
	}
	return l
}

func (r *Run) c19object() (ocfl.Object, func(), error) {
	dir, err := os.MkdirTemp(r.Scratch, "c19")
	if err != nil {
		return nil, nil, err
	}
	c := &Cfg{Ver: "1.1", Digest: "sha512", Root: append(mgrSpecs(nil, nil), ext("0002-flat-direct-storage-layout")), Obj: mgrSpecs(nil, nil)}
	e, err := createRoot(filepath.Join(dir, "r"), c, nil)
	if err != nil {
		return nil, nil, err
	}
	mgr, err := e.objManager()
	if err != nil {
		return nil, nil, err
	}
	o, err := e.SR.CreateObject("o", c.ver(), c.dig(), nil, mgr)
	return o, func() { os.RemoveAll(dir) }, err
}

func c19(r *Run) {
	o, stop, err := r.c19object()
	if err != nil {
		r.Violate("op-error:create", err.Error(), nil)
		return
	}
	defer stop()
	r.Parallel(r.N(600, 4000), func(i int) { r.c19manager(i, o) })
	r.Parallel(r.N(200, 1200), func(i int) { r.c19stream(i, o) })
	r.Parallel(r.N(120, 700), func(i int) { r.c19history(i) })
}

func (r *Run) c19manager(i int, o ocfl.Object) {
	rng := r.Rng("mgr", i)
	s := genProbes(rng, []int{0, 1, 2, 3, 4, 4, 5, 6, 7})
	bad := func(key, msg string) {
		r.Violate("manager:"+key, msg+"; "+s.String(), map[string]any{"case": i, "part": "manager"})
	}
	var firstSeq map[string]string
	var firstRes map[string]string
	for k, order := range perms(rng, len(s.probes), 4) {
		seqs, ress := map[string]string{}, map[string]string{}
		log := &plog{rng: r.Rng("mgrlog", i, k)}
		viaFactory := k%2 == 1
		m, err := s.manager(r, log, order, viaFactory)
		if err != nil {
			bad("build", "manager cannot be built: "+err.Error())
			return
		}
		log.reset()
		for _, h := range hookFns() {
			var res any
			var err error
			if p := guard(func() { res, err = h.run(m, o) }); p != "" {
				bad("panic:"+h.fn, p)
				return
			}
			calls := callsOf(log.reset(), h.fn)
			r.Count("hook calls", len(calls))
			if err != nil {
				bad("error:"+h.fn, "error without failing extension: "+err.Error())
				return
			}
			b, _ := json.Marshal(res)
			seqs[h.fn], ress[h.fn] = fmt.Sprint(calls), string(b)
			switch {
			case h.hook == "":
				c := append([]string{}, calls...)
				sort.Strings(c)
				w := []string{}
				for _, p := range s.probes {
					w = append(w, p.name)
				}
				sort.Strings(w)
				if fmt.Sprint(c) != fmt.Sprint(w) {
					bad("complete:"+h.fn, fmt.Sprintf("%s called for %v instead of %v", h.fn, c, w))
				}
				seqs[h.fn] = ""
			case h.first:
				// extensions after the one with the result are not asked
				if d := s.placed(h.hook, calls); d != "" {
					bad("order:"+h.fn, d)
				}
				act := s.active(h.hook)
				has, want := false, ""
				for k, n := range calls {
					if !act[n] {
						bad("exclusion:"+h.fn, n+" called although excluded")
					}
					for _, p := range s.probes {
						if p.name == n {
							hit := p.need
							if h.hook == hArea {
								hit = p.area == "x" || p.area == "*"
								if hit && !has {
									want = "area-" + p.short()
								}
							}
							has = has || hit
							_ = k
						}
					}
				}
				if !has && len(calls) != len(act) {
					bad("complete:"+h.fn, fmt.Sprintf("asked %v of %v", calls, act))
				}
				if h.hook == hArea && res.(string) != want {
					bad("result:"+h.fn, fmt.Sprintf("area path %v, expected %v", res, want))
				}
				if h.hook == hNewVer && res.(bool) != has {
					bad("result:"+h.fn, fmt.Sprintf("new version needed: %v, expected %v", res, has))
				}
				for n := range act {
					for _, p := range s.probes {
						if p.name == n && h.hook == hNewVer && p.need && !has {
							bad("result:"+h.fn, "need of "+n+" ignored")
						}
					}
				}
			default:
				if d := s.ordered(h.hook, calls); d != "" {
					bad("order:"+h.fn, d)
				}
				if h.path != "" {
					start := "p/q"
					if h.path == "srp" {
						start = "id"
					}
					if want := s.fold(h.path, calls, start); res.(string) != want {
						bad("result:"+h.fn, fmt.Sprintf("path %v, expected %v", res, want))
					}
				}
				if h.hook == hFixity {
					want := map[string]bool{}
					for n := range s.active(hFixity) {
						want["md5"] = true
						want["x-"+n[len(n)-1:]] = true
					}
					got := map[string]bool{}
					for _, d := range res.([]checksum.DigestAlgorithm) {
						got[string(d)] = true
					}
					if fmt.Sprint(got) != fmt.Sprint(want) {
						bad("result:"+h.fn, fmt.Sprintf("digests %v, expected %v", got, want))
					}
				}
				if h.hook == hMeta {
					want := map[string]map[string]any{}
					for n := range s.active(hMeta) {
						for k, v := range map[string]any{"": n, "dig" + n[len(n)-1:]: n, "common": n[len(n)-1:]} {
							if want[k] == nil {
								want[k] = map[string]any{}
							}
							want[k][n] = v
						}
					}
					wb, _ := json.Marshal(want)
					if string(wb) != string(b) {
						bad("result:"+h.fn, fmt.Sprintf("metadata %s, expected %s", b, wb))
					}
				}
			}
			if len(calls) > 1 {
				r.Case(fmt.Sprintf("mgr %s n%d sort%v excl%v factory%v", h.fn, len(calls), len(s.sort[h.hook]) > 0, len(s.excl[h.hook]) > 0, viaFactory), true)
			} else {
				r.Case("mgr", false)
			}
			// an error of any extension makes the call fail
			if h.noErr || len(calls) == 0 {
				continue
			}
			x := pick(rng, calls)
			log.fail, log.occ, log.hit = h.fn+"|"+x, 0, false
			_, err = h.run(m, o)
			c2 := log.reset()
			if log.hit && err == nil && !(h.hook == hArea && answered(c2, s, x)) {
				bad("error-lost:"+h.fn, "error of "+x+" is not reported")
			}
			log.fail = ""
			r.Count("planted errors", 1)
		}
		if firstSeq == nil {
			firstSeq, firstRes = seqs, ress
		}
		for fn := range seqs {
			if seqs[fn] != firstSeq[fn] {
				bad("load-order:"+fn, fmt.Sprintf("called in order %v and, loaded differently, %v", firstSeq[fn], seqs[fn]))
			}
			if ress[fn] != firstRes[fn] {
				bad("load-order-result:"+fn, fmt.Sprintf("result %v and, loaded differently, %v", firstRes[fn], ress[fn]))
			}
		}
	}
}

// answered says whether another extension than x gave the area path
func answered(calls []*pcall, s *probeSet, x string) bool {
	for _, c := range calls {
		for _, p := range s.probes {
			if c.Ext == p.name && p.name != x && (p.area == "x" || p.area == "*") {
				return true
			}
		}
	}
	return false
}

func guard(fn func()) (p string) {
	defer func() {
		if e := recover(); e != nil {
			p = fmt.Sprint("panic: ", e)
		}
	}()
	fn()
	return ""
}

// failReader fails after its data
type failReader struct {
	r    io.Reader
	fail bool
}

func (f *failReader) Read(b []byte) (int, error) {
	n, err := f.r.Read(b)
	if err == io.EOF && f.fail {
		return n, errProbe
	}
	return n, err
}

// chunkReader returns the data in odd portions
type chunkReader struct {
	r   io.Reader
	rng *rand.Rand
}

func (c *chunkReader) Read(b []byte) (int, error) {
	n := 1 + c.rng.Intn(100000)
	if n < len(b) {
		b = b[:n]
	}
	return c.r.Read(b)
}

// c19stream drives the distribution of one stream to all extensions
func (r *Run) c19stream(i int, o ocfl.Object) {
	rng := r.Rng("stream", i)
	s := genProbes(rng, []int{1, 2, 4, 6, 3})
	log := &plog{rng: r.Rng("streamlog", i)}
	m, err := s.manager(r, log, rng.Perm(len(s.probes)), false)
	if err != nil {
		r.Violate("manager:build", err.Error(), nil)
		return
	}
	act := s.active(hStream)
	for k := 0; k < 6; k++ {
		size := pick(rng, []int{0, 1, 511, 512, 4096, 65536, 1 << 20, 1<<20 - 1, 1<<20 + 1, 3<<20 + 7})
		data := randBytes(rng, size)
		fail := pick(rng, []string{"", "", "ext", "src"})
		x := ""
		if fail == "ext" && len(act) > 0 {
			x = pick(rng, sortedKeys(act))
			log.fail, log.occ, log.hit, log.mode = "StreamObject|"+x, 0, false, pick(rng, []string{"before", "mid", "after"})
		}
		bad := func(key, msg string) {
			r.Violate("stream:"+key, fmt.Sprintf("%s; %d bytes, failing %s %s %s; %s", msg, size, fail, x, log.mode, s), map[string]any{"case": i, "part": "stream"})
		}
		var err error
		if p := guard(func() {
			err = m.StreamObject(o, &failReader{&chunkReader{bytes.NewReader(data), r.Rng("chunk", i, k)}, fail == "src"}, []string{"logical"}, "dest")
		}); p != "" {
			bad("panic", p)
			return
		}
		calls := log.reset()
		log.fail = ""
		r.Count("streams", 1)
		seen := map[string]int{}
		for _, c := range calls {
			seen[c.Ext]++
			if !act[c.Ext] {
				bad("excluded", c.Ext+" called although excluded")
			}
			if !bytes.HasPrefix(data, c.data) {
				bad("bytes", fmt.Sprintf("%s got other bytes than the file has (%d bytes read)", c.Ext, len(c.data)))
			}
			if c.full && fail == "" && len(c.data) != len(data) {
				bad("bytes", fmt.Sprintf("%s got %d of %d bytes", c.Ext, len(c.data), len(data)))
			}
			r.Count("stream bytes seen", len(c.data))
		}
		for n := range act {
			if seen[n] != 1 {
				bad("once", fmt.Sprintf("%s called %d times", n, seen[n]))
			}
		}
		switch fail {
		case "":
			if err != nil {
				bad("error", err.Error())
			}
		case "ext":
			if x != "" && err == nil {
				bad("error-lost", "error of "+x+" is not reported")
			}
		case "src":
			if err == nil {
				bad("error-lost", "error of the source is not reported")
			}
		}
		r.Case(fmt.Sprintf("stream n%d %s %s size%d", len(act), fail, log.mode, size), len(act) > 1)
	}
}

// c19run is one run of the history: create, update after reload, extract
type c19run struct {
	err   error
	step  string
	calls map[string][]*pcall // by step
	hit   bool
	tree  Tree
	out   Tree
	state []string
}

func (r *Run) c19history(i int) {
	rng := r.Rng("hist", i)
	s := genProbes(rng, []int{0, 1, 2, 3, 4, 6, 4})
	// a further version is made if an extension wants one and adds something to it
	further, wanted := false, false
	quiet := rng.Intn(3) > 0
	for k := range s.probes {
		p := &s.probes[k]
		p.need = p.need && !quiet && !wanted && s.active(hNewVer)[p.name]
		p.adds = rng.Intn(2) == 0 || p.need
		if s.active(hNewVer)[p.name] {
			wanted = wanted || p.need
			further = further || p.adds
		}
	}
	further = further && wanted
	files := map[string][]byte{}
	for k := 0; k < 2+rng.Intn(4); k++ {
		files[fmt.Sprintf("d%d/f%d", k%2, k)] = randBytes(rng, pick(rng, []int{0, 1, 700, 70000, 1<<20 + 5}))
	}
	more := map[string][]byte{"new": randBytes(rng, 1000), "d0/f0": randBytes(rng, 33)}
	reader := randBytes(rng, 5000)
	dataB := randBytes(rng, 600)
	dedup := rng.Intn(2) == 0
	order := rng.Perm(len(s.probes))

	run := func(fail string, occ int, mode string) *c19run {
		res := &c19run{calls: map[string][]*pcall{}}
		dir, _ := os.MkdirTemp(r.Scratch, "c19h")
		defer os.RemoveAll(dir)
		log := &plog{rng: r.Rng("histlog", i), fail: fail, occ: occ, mode: mode}
		c := &Cfg{Ver: "1.1", Digest: "sha512", Root: append(mgrSpecs(nil, nil), ext("0002-flat-direct-storage-layout")), Obj: s.folders(order), Probes: s, ProbeLog: log}
		root := filepath.Join(dir, "r")
		do := func(step string, fn func() error) bool {
			if res.err != nil {
				return false
			}
			if p := guard(func() { res.err = fn() }); p != "" {
				res.err = errors.New(p)
			}
			res.calls[step] = log.reset()
			res.hit = log.hit
			res.step = step
			return res.err == nil
		}
		var e *Env
		do("init", func() (err error) { e, err = createRoot(root, c, nil); return })
		do("create", func() error {
			return e.update("obj", &Upd{Msg: "m", User: "u", Addr: "a", Dedup: dedup, Ops: []Op{{Kind: "folder", Src: files}, {Kind: "reader", Path: "r1", More: []string{"r2"}, Data: reader}, {Kind: "data", Path: "dat", Data: dataB}}})
		})
		do("update", func() (err error) {
			e, err = openRoot(root, c, nil)
			if err != nil {
				return
			}
			return e.update("obj", &Upd{Msg: "m2", User: "u", Addr: "a", Dedup: dedup, Ops: []Op{{Kind: "folder", Src: more}}})
		})
		do("metadata", func() error {
			o, err := e.SR.LoadObjectByID("obj")
			if err != nil {
				return err
			}
			_, err = o.GetMetadata()
			return err
		})
		do("extract", func() (err error) {
			t := filepath.Join(dir, "x")
			os.MkdirAll(t, 0755)
			tf, err := osfsrw.NewFS(t, nopLogger())
			if err != nil {
				return err
			}
			err = e.SR.Extract(tf, "", "obj", map[bool]string{true: "v3", false: "v2"}[further], false, "content")
			res.out = readTree(t)
			return
		})
		res.tree = readTree(root)
		return res
	}
	bad := func(key, msg string) {
		r.Violate("object:"+key, msg+"; "+s.String(), map[string]any{"case": i, "part": "object"})
	}
	res := run("", 0, "")
	if res.err != nil {
		bad("op-error:"+res.step, res.err.Error())
		return
	}
	n := 0
	for step, calls := range res.calls {
		n += len(calls)
		byFn := map[string][]*pcall{}
		for _, c := range calls {
			byFn[c.Fn] = append(byFn[c.Fn], c)
		}
		// hooks which are called one after the other for one subject: the sequence is a repetition of the active extensions in order
		for _, h := range []struct{ hook, fn string }{{hContent, "BuildObjectManifestPath"}, {hState, "BuildObjectStatePath"}, {hExtract, "BuildObjectExtractPath"}, {hChange, "AddFileBefore"}, {hChange, "AddFileAfter"}, {hObject, "UpdateObjectBefore"}, {hObject, "UpdateObjectAfter"}, {hMeta, "GetMetadata"}, {hNewVer, "NeedNewVersion"}, {hNewVer, "DoNewVersion"}} {
			l := byFn[h.fn]
			if h.fn == "NeedNewVersion" && wanted {
				continue
			}
			if h.fn == "DoNewVersion" && wanted && (step == "create" || step == "update") && len(l) != len(s.active(hNewVer)) {
				bad("once:DoNewVersion", fmt.Sprintf("%d calls in step %s", len(l), step))
			}
			act := len(s.active(h.hook))
			if act == 0 {
				if len(l) > 0 {
					bad("exclusion:"+h.fn, "called although no extension is active")
				}
				continue
			}
			if len(l)%act != 0 {
				bad("complete:"+h.fn, fmt.Sprintf("%d calls for %d active extensions in step %s", len(l), act, step))
				continue
			}
			for k := 0; k < len(l); k += act {
				seq := []string{}
				for _, c := range l[k : k+act] {
					seq = append(seq, c.Ext)
				}
				if d := s.ordered(h.hook, seq); d != "" {
					bad("order:"+h.fn, d+" in step "+step)
				}
			}
			n := act
			if wanted && h.fn == "UpdateObjectBefore" || further {
				n += act
			}
			if (h.fn == "UpdateObjectBefore" || h.fn == "UpdateObjectAfter") && (step == "create" || step == "update") && len(l) != n {
				bad("once:"+h.fn, fmt.Sprintf("%d calls for %d active extensions in step %s", len(l), act, step))
			}
			if act > 1 && len(l) > 0 {
				r.Case(fmt.Sprintf("obj %s %s n%d", step, h.fn, act), true)
			}
		}
		// every extension is told to store its configuration when the object was created
		if step == "create" {
			got := map[string]bool{}
			for _, c := range byFn["WriteConfig"] {
				got[c.Ext] = true
			}
			for _, p := range s.probes {
				if !got[p.name] {
					bad("complete:WriteConfig", "configuration of "+p.name+" not stored")
				}
			}
		}
	}
	r.Count("hook calls in objects", n)
	// every stored file: exactly one stream per active extension with its bytes
	inv, err := readInv(res.tree["obj/inventory.json"])
	if err != nil {
		bad("inventory", err.Error())
		return
	}
	second := "v2"
	if further {
		second = "v3"
	}
	head := inv.Head
	if wantHead := map[bool]string{true: "v4", false: "v2"}[further]; head != wantHead {
		bad("head", fmt.Sprintf("head %s, expected %s", head, wantHead))
	}
	for _, k := range oracleRoot(res.tree, map[string]string{"obj": "obj"}) {
		bad("conform:"+strings.Fields(k)[0], k)
	}
	for _, st := range []struct{ step, ver string }{{"create", "v1"}, {"update", second}} {
		prefix := st.ver + "/content/"
		type seen struct {
			n    int
			call *pcall
		}
		streams := map[string]map[string]*seen{}
		before, after := map[string]map[string]int{}, map[string]map[string]int{}
		count := func(m map[string]map[string]int, f, e string) {
			if m[f] == nil {
				m[f] = map[string]int{}
			}
			m[f][e]++
		}
		for _, c := range res.calls[st.step] {
			switch c.Fn {
			case "StreamObject":
				if streams[c.Arg] == nil {
					streams[c.Arg] = map[string]*seen{}
				}
				if streams[c.Arg][c.Ext] == nil {
					streams[c.Arg][c.Ext] = &seen{}
				}
				streams[c.Arg][c.Ext].n++
				streams[c.Arg][c.Ext].call = c
			case "AddFileBefore":
				count(before, c.Arg, c.Ext)
			case "AddFileAfter":
				count(after, c.Arg, c.Ext)
			}
		}
		for _, paths := range inv.Manifest {
			for _, p := range paths {
				if !strings.HasPrefix(p, prefix) {
					continue
				}
				body := res.tree["obj/"+p]
				dest := strings.TrimPrefix(p, prefix)
				for e := range s.active(hStream) {
					x := streams[dest][e]
					if x == nil || x.n != 1 {
						k := 0
						if x != nil {
							k = x.n
						}
						bad("stream-once", fmt.Sprintf("%s got %d streams for stored file %s", e, k, p))
						continue
					}
					if !bytes.HasPrefix(body, x.call.data) || (x.call.full && len(x.call.data) != len(body)) {
						bad("stream-bytes", fmt.Sprintf("%s got other bytes for %s (%d, stored %d)", e, p, len(x.call.data), len(body)))
					}
					r.Count("files compared with their stream", 1)
				}
				for e := range s.active(hChange) {
					if before[dest][e] != 1 {
						bad("once:AddFileBefore", fmt.Sprintf("%s called %d times for stored file %s", e, before[dest][e], p))
					}
					if after[p][e] != 1 {
						bad("once:AddFileAfter", fmt.Sprintf("%s called %d times for stored file %s", e, after[p][e], p))
					}
				}
			}
		}
	}
	// paths: the hooks are applied one after the other
	seqOf := func(step, fn string, act int) []string {
		l := callsOf(res.calls[step], fn)
		if len(l) < act {
			return nil
		}
		return l[:act]
	}
	stSeq := seqOf("create", "BuildObjectStatePath", len(s.active(hState)))
	exSeq := seqOf("extract", "BuildObjectExtractPath", len(s.active(hExtract)))
	want := Tree{}
	for f, b := range files {
		want[f] = b
	}
	want["r1"], want["r2"], want["dat"] = reader, reader, dataB
	if further {
		for _, p := range s.probes {
			if p.adds && s.active(hNewVer)[p.name] {
				want["derived-"+p.short()] = []byte("derived by " + p.name)
			}
		}
	}
	for f, b := range more {
		want[f] = b
	}
	wantOut := Tree{}
	for f, b := range want {
		l := s.fold(hState, stSeq, f)
		wantOut[s.fold(hExtract, exSeq, l)] = b
	}
	if d := diffTrees(wantOut, res.out.files()); len(d) > 0 {
		bad("paths", fmt.Sprintf("extracted files differ from the mapping of the extensions: %v", first(d, 3)))
	}
	for _, seqs := range [][2]string{{"create", "update"}} {
		for _, h := range []struct{ hook, fn string }{{hState, "BuildObjectStatePath"}, {hContent, "BuildObjectManifestPath"}, {hChange, "AddFileAfter"}, {hObject, "UpdateObjectAfter"}} {
			a, b := seqOf(seqs[0], h.fn, len(s.active(h.hook))), seqOf(seqs[1], h.fn, len(s.active(h.hook)))
			if fmt.Sprint(a) != fmt.Sprint(b) {
				bad("reload-order:"+h.fn, fmt.Sprintf("order %v, after reload %v", a, b))
			}
		}
	}
	// a failure of any call makes an operation fail
	type fp struct{ fn, ext string }
	cnt := map[fp]int{}
	stepOf := map[string]string{}
	for step, calls := range res.calls {
		for _, c := range calls {
			if c.Fn == "SetParams" || c.Fn == "GetFixityDigests" || c.Fn == "Terminate" {
				continue
			}
			cnt[fp{c.Fn, c.Ext}]++
			stepOf[c.Fn] = step
		}
	}
	all := []fp{}
	for k := range cnt {
		all = append(all, k)
	}
	sort.Slice(all, func(a, b int) bool { return all[a].fn+all[a].ext < all[b].fn+all[b].ext })
	rng.Shuffle(len(all), func(a, b int) { all[a], all[b] = all[b], all[a] })
	done := map[string]bool{}
	for _, p := range all {
		if done[p.fn] && !r.Thorough() {
			continue
		}
		done[p.fn] = true
		mode := pick(rng, []string{"before", "mid", "after"})
		occ := rng.Intn(cnt[p])
		f := run(p.fn+"|"+p.ext, occ, mode)
		r.Count("planted errors in objects", 1)
		r.Case(fmt.Sprintf("obj error %s %s", p.fn, mode), f.hit)
		if f.hit && f.err == nil {
			bad("error-lost:"+p.fn, fmt.Sprintf("error of %s at call %d (%s) is not reported by any operation", p.ext, occ, mode))
		}
		if f.err != nil && strings.HasPrefix(f.err.Error(), "panic") {
			bad("panic:"+p.fn, f.err.Error())
		}
	}
	_ = path.Join
}
