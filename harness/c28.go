package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"image/png"
	"io"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"slices"
	"strings"
	"time"

	"github.com/andybalholm/brotli"
	"github.com/je4/gocfl/v2/config"
	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
	"github.com/je4/gocfl/v2/pkg/subsystem/migration"
	"github.com/je4/gocfl/v2/pkg/subsystem/thumbnail"
	"github.com/je4/indexer/v3/pkg/indexer"
	configutil "github.com/je4/utils/v2/pkg/config"
	"golang.org/x/image/bmp"
	"golang.org/x/image/tiff"
)

// Derivatives: migration and thumbnail extensions with real external tools (a shell script which derives its
// output from the bytes of the source, or fails in one of several ways if these ask for it).

func init() {
	register("C28", "exploration", "random updates of objects with indexer, migration and thumbnail extensions, generated migration and thumbnail functions (all strategies) which call a real tool that derives its output from the source or fails as the source demands; non-trivial when derivatives were due; states of the user's and the automated version, stored files, records and thumbnails are compared with a model", c28)
}

const toolScript = `#!/bin/sh
# tool.sh mode id source destination [width height background]
if grep -q -a '!!exit' "$3"; then printf partial > "$4"; exit 1; fi
if grep -q -a '!!noout' "$3"; then exit 0; fi
if grep -q -a '!!dir' "$3"; then mkdir "$4"; exit 0; fi
if [ "$1" = hang ]; then exec sleep 20; fi
out="$4"
{ printf 'derived %s\n' "$2"; base64 -w 76 "$3"; shift 4; printf 'args %s\n' "$*"; } > "$out"
`

// toolOutput is what the tool writes
func toolOutput(id string, src []byte, args string) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "derived %s\n", id)
	e := base64.StdEncoding.EncodeToString(src)
	for len(e) > 0 {
		n := min(76, len(e))
		b.WriteString(e[:n] + "\n")
		e = e[n:]
	}
	fmt.Fprintf(&b, "args %s\n", args)
	return b.Bytes()
}

type dfn struct {
	Key, ID, Mode, Strategy, Re, Repl string
	Pronoms                           []string
	Mime                              string
	re                                *regexp.Regexp
}

func (f *dfn) fails(src []byte) bool {
	return f.Mode == "hang" || f.Mode == "missing" || bytes.Contains(src, []byte("!!exit")) || bytes.Contains(src, []byte("!!noout")) || bytes.Contains(src, []byte("!!dir"))
}

// dest is the logical name of a derivative as documented: the expression applied to the name, for the strategy
// folder the name with the version in a folder named like the source
func (f *dfn) dest(src, head string, derived bool) string {
	if f.Strategy == "folder" && derived {
		// the next derivative beside the previous one
		if _, rest, ok := strings.Cut(path.Base(src), "."); ok && rest != "" && path.Base(src)[0] != '.' {
			return path.Join(path.Dir(src), head+"."+rest)
		}
		return ""
	}
	if f.Strategy == "folder" {
		return path.Join(src, head+"."+path.Base(f.re.ReplaceAllString(src, f.Repl)))
	}
	return f.re.ReplaceAllString(src, f.Repl)
}

type dcase struct {
	w          *World
	rng        *rand.Rand
	cfg        *Cfg
	id, obj    string
	mig, th    []*dfn // configured functions
	migOn      bool   // functions available in this session
	thOn       bool
	hasMig     bool
	hasTh      bool
	thExt      string
	tw, thh    int
	bg         string
	place      map[string][2]string // extension -> storage type, storage name
	state      map[string][]byte    // head without designated places
	vers       int
	done       map[string]drec // recorded migrations by source digest
	thumbs     map[string]string
	overwrites bool
	thDone     map[string]bool
}

type drec struct{ D, ID, Err string }

func (d *dcase) digest(b []byte) string { return digest(d.cfg.Digest, b) }

// designated tells whether a logical path belongs to a place of the extensions
func (d *dcase) designated(l string) bool {
	if d.cfg.Areas != nil && l == readmeName {
		return true
	}
	for _, p := range d.place {
		switch p[0] {
		case "area":
			if strings.HasPrefix(l, d.cfg.Areas[p[1]]+"/") {
				return true
			}
		case "path":
			if strings.HasPrefix(l, path.Join(d.cfg.Areas["content"], p[1])+"/") {
				return true
			}
		}
	}
	return false
}

func (d *dcase) pure(st map[string][]byte) map[string][]byte {
	n := map[string][]byte{}
	for k, v := range st {
		if !d.designated(k) {
			n[k] = v
		}
	}
	return n
}

func (d *dcase) inContent(l string) bool {
	return d.cfg.Areas == nil || strings.HasPrefix(l, d.cfg.Areas["content"]+"/")
}

// ---- files ----------------------------------------------------------------

type dkind struct {
	name    string
	pronoms []string
	mime    string
	gen     func(rng *rand.Rand, mark string) []byte
}

func uniform(rng *rand.Rand, w, h int) image.Image {
	m := image.NewRGBA(image.Rect(0, 0, w, h))
	c := color.RGBA{uint8(rng.Intn(256)), uint8(rng.Intn(256)), uint8(rng.Intn(256)), 255}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			n := uint8(rng.Intn(8))
			m.SetRGBA(x, y, color.RGBA{c.R&^7 + n, c.G&^7 + n, c.B&^7 + n, 255})
		}
	}
	return m
}

func imgSize(rng *rand.Rand) (int, int) {
	switch rng.Intn(8) {
	case 0:
		return 1, 1200 + rng.Intn(2000)
	case 1:
		return 1200 + rng.Intn(2000), 1
	case 2:
		return 300 + rng.Intn(200), 40 + rng.Intn(20)
	}
	return 24 + rng.Intn(40), 24 + rng.Intn(40)
}

func genImage(kind string, rng *rand.Rand, mark string) []byte {
	w, h := imgSize(rng)
	var b bytes.Buffer
	m := uniform(rng, w, h)
	switch kind {
	case "png":
		png.Encode(&b, m)
	case "jpg":
		jpeg.Encode(&b, m, nil)
	case "gif":
		gif.Encode(&b, m, nil)
	case "bmp":
		bmp.Encode(&b, m)
	case "tif":
		tiff.Encode(&b, m, nil)
	}
	d := b.Bytes()
	if mark != "" {
		// no image any more, only its beginning
		d = append(d[:min(len(d), 60+rng.Intn(40))], mark...)
	} else if rng.Intn(12) == 0 {
		d = d[:len(d)-len(d)/3]
	} else if kind == "bmp" && rng.Intn(4) == 0 {
		// an image without extent
		o := pick(rng, []int{18, 22})
		copy(d[o:o+4], []byte{0, 0, 0, 0})
	} else if rng.Intn(12) == 0 {
		d = append(d, "trailing bytes "+strings.Repeat("x", rng.Intn(5000))...)
	}
	if len(d) < 512 {
		d = append(d, bytes.Repeat([]byte{' '}, 512-len(d))...)
	}
	return d
}

var dkinds = []dkind{
	{"pdf", []string{"fmt/14", "fmt/15", "fmt/16", "fmt/17", "fmt/18", "fmt/19", "fmt/20"}, "application/pdf", func(rng *rand.Rand, mark string) []byte {
		return []byte(fmt.Sprintf("%%PDF-1.4\n%s\n1 0 obj\n<< /N %d >>\nendobj\n%s\n%%%%EOF\n", mark, rng.Intn(1<<30), strings.Repeat("% filler\n", 80)))
	}},
	{"xml", []string{"fmt/101"}, "^(text|application)/xml$", func(rng *rand.Rand, mark string) []byte {
		return []byte(fmt.Sprintf("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<doc n=\"%d\"><!-- %s -->%s</doc>\n", rng.Intn(1<<30), mark, strings.Repeat("<a>text</a>\n", 60)))
	}},
	{"png", []string{"fmt/11", "fmt/12", "fmt/13"}, "^image/png$", func(rng *rand.Rand, mark string) []byte { return genImage("png", rng, mark) }},
	{"jpg", []string{"fmt/41", "fmt/42", "fmt/43", "fmt/44", "fmt/645"}, "^image/jpeg$", func(rng *rand.Rand, mark string) []byte { return genImage("jpg", rng, mark) }},
	{"gif", []string{"fmt/3", "fmt/4"}, "^image/gif$", func(rng *rand.Rand, mark string) []byte { return genImage("gif", rng, mark) }},
	{"bmp", []string{"fmt/114", "fmt/115", "fmt/116", "fmt/117", "fmt/118", "fmt/119"}, "^image/(x-ms-)?bmp$", func(rng *rand.Rand, mark string) []byte { return genImage("bmp", rng, mark) }},
	{"tif", []string{"fmt/353", "fmt/354", "x-fmt/387"}, "^image/tiff$", func(rng *rand.Rand, mark string) []byte { return genImage("tif", rng, mark) }},
	{"bin", nil, "", func(rng *rand.Rand, mark string) []byte { return append([]byte{1, 2, 0, 255}, randBytes(rng, 600)...) }},
}

func (d *dcase) genFile() (string, []byte) {
	rng := d.rng
	k := pick(rng, dkinds)
	mark := ""
	if rng.Intn(5) == 0 {
		mark = pick(rng, []string{"!!exit", "!!noout", "!!dir"})
	}
	base := pick(rng, []string{"a", "b", "c c", "ü", "x.y", "%41", "q&<>'\"", "1"})
	if rng.Intn(3) == 0 {
		base += fmt.Sprint(rng.Intn(20))
	}
	ext := "." + k.name
	switch rng.Intn(8) {
	case 0:
		ext = strings.ToUpper(ext)
	case 1:
		ext = ""
	case 2:
		// named like the derivative of another file
		ext += ".new"
	}
	dir := pick(rng, []string{"", "", "sub", "dir one", "s.pdf", "v2"})
	return path.Join(dir, base+ext), k.gen(rng, mark)
}

// ---- configuration --------------------------------------------------------

func newDcase(r *Run, rng *rand.Rand, i int) *dcase {
	d := &dcase{rng: rng, place: map[string][2]string{}, state: map[string][]byte{}, done: map[string]drec{}, thumbs: map[string]string{}, thDone: map[string]bool{}}
	c := &Cfg{Ver: pick(rng, []string{"1.0", "1.1"}), Digest: pick(rng, []string{"sha512", "sha256"}), Dedup: rng.Intn(4) != 0, Params: map[string]string{}, Index: true}
	d.cfg = c
	c.LayoutSpec, c.Layout = ext("0004-hashed-n-tuple-storage-layout", "digestAlgorithm", "sha256", "tupleSize", 3, "numberOfTuples", 1), "0004"
	c.Root = []ExtSpec{c.LayoutSpec}
	types := []string{"extension"}
	sort := map[string][]string{}
	if rng.Intn(3) == 0 {
		c.Clean = true
		c.Obj = append(c.Obj, ext("NNNN-direct-clean-path-layout", "maxPathnameLen", 32000, "maxPathSegmentLen", 127, "replacementString", "_", "whitespaceReplacementString", "_", "utfEncode", rng.Intn(2) == 0,
			"fallbackFolder", "fallback", "fallbackTupleSize", 1, "numberOfFallbackTuples", 0))
		sort["ObjectContentPath"] = []string{"NNNN-direct-clean-path-layout", "NNNN-content-subpath"}
		c.Label += "+clean"
	}
	if rng.Intn(3) != 0 {
		c.Areas = map[string]string{"content": pick(rng, []string{"data", "a/b"}), "metadata": "meta", "extra": "x/y"}
		c.Obj = append(c.Obj, csp(c.Areas))
		c.Label += "+subpath"
		types = []string{"area", "path", "extension"}
	}
	store := func(name string) (string, string) {
		t := pick(rng, types)
		n := map[string]string{"area": "metadata", "path": pick(rng, []string{"metadata", "m/n"}), "extension": pick(rng, []string{"data", "m/n"})}[t]
		d.place[name] = [2]string{t, n}
		c.Label += "/" + t
		return t, n
	}
	comp := func() string { return pick(rng, []string{"none", "gzip", "brotli"}) }
	t, n := store("NNNN-indexer")
	c.Obj = append(c.Obj, ext("NNNN-indexer", "StorageType", t, "StorageName", n, "Actions", []string{"siegfried"}, "Compress", comp()))
	which := rng.Intn(4)
	if d.hasMig = which != 0; d.hasMig {
		c.Label += "+migration"
		t, n := store("NNNN-migration")
		c.Obj = append(c.Obj, ext("NNNN-migration", "StorageType", t, "StorageName", n, "Compress", comp()))
	}
	if d.hasTh = which != 1; d.hasTh {
		c.Label += "+thumbnail"
		t, n := store("NNNN-thumbnail")
		d.thExt = pick(rng, []string{"png", "jpeg", "png", "txt"})
		d.tw, d.thh = pick(rng, []int{256, 20, 64}), pick(rng, []int{256, 20, 64})
		c.Obj = append(c.Obj, ext("NNNN-thumbnail", "storageType", t, "storageName", n, "compress", comp(), "ext", d.thExt, "width", d.tw, "height", d.thh, "singleDirectory", rng.Intn(2) == 0))
	}
	l := []string{"NNNN-indexer", "NNNN-migration", "NNNN-thumbnail"}
	if rng.Intn(2) == 0 {
		l[1], l[2] = l[2], l[1]
	}
	if rng.Intn(2) == 0 {
		sort["ObjectChange"] = l
	}
	if len(sort) > 0 || rng.Intn(2) == 0 {
		c.Obj = append(c.Obj, mgrSpecs(sort, nil)...)
	}
	c.Indexer = newIndexer(nil, "siegfried")
	for _, k := range dkinds {
		if k.pronoms == nil {
			continue
		}
		if rng.Intn(3) != 0 {
			f := &dfn{Key: "m" + k.name, ID: pick(rng, []string{"M#", "mig "}) + k.name, Strategy: pick(rng, []string{"add", "add", "replace", "folder"}), Pronoms: k.pronoms}
			switch rng.Intn(4) {
			case 0:
				f.Re, f.Repl = `^(.*)\.`+k.name+`$`, "$1.new"
			case 1:
				f.Re, f.Repl = `(?i)^(.*)\.`+k.name+`$`, "${1}."+k.name+".new"
			case 2:
				f.Re, f.Repl = `$`, ".new"
			case 3:
				f.Re, f.Repl = `\.[^./]*$`, ".new"
			}
			d.mig = append(d.mig, f)
		}
		if rng.Intn(2) == 0 {
			f := &dfn{Key: "t" + k.name, ID: "T#" + k.name, Pronoms: k.pronoms}
			if rng.Intn(2) == 0 {
				f.Pronoms, f.Mime = nil, k.mime
			}
			d.th = append(d.th, f)
		}
	}
	if rng.Intn(3) == 0 {
		// derivatives are migrated with the next update
		d.mig = append(d.mig, &dfn{Key: "mder", ID: "second", Strategy: pick(rng, []string{"add", "replace", "folder", "folder"}), Pronoms: []string{"x-fmt/111"}, Re: `\.new$`, Repl: ".newer"})
	}
	for _, f := range append(append([]*dfn{}, d.mig...), d.th...) {
		f.re = regexp.MustCompile(f.Re)
		if rng.Intn(24) == 0 {
			f.Mode = "hang"
		} else if rng.Intn(24) == 0 {
			f.Mode = "missing"
		} else {
			f.Mode = "ok"
		}
	}
	d.bg = pick(rng, []string{"none", "white", ""})
	c.Label = fmt.Sprintf("%s/%s%s", c.Ver, c.Digest, c.Label)
	return d
}

// session makes the functions of the configuration available, or not
func (d *dcase) session(tool string) error {
	d.migOn, d.thOn = d.hasMig && d.rng.Intn(5) != 0, d.hasTh && d.rng.Intn(5) != 0
	conf := &config.GOCFLConfig{Migration: &config.Migration{Function: map[string]*config.MigrationFunction{}}, Thumbnail: &config.Thumbnail{Background: d.bg, Function: map[string]*config.ThumbnailFunction{}}}
	cmd := func(f *dfn) string {
		if f.Mode == "missing" {
			return filepath.Join(filepath.Dir(tool), "no such tool")
		}
		return fmt.Sprintf("/bin/sh %q %s %q {source} {destination}", tool, f.Mode, f.ID)
	}
	tout := func(f *dfn) configutil.Duration {
		if f.Mode == "hang" {
			return configutil.Duration(300 * time.Millisecond)
		}
		return configutil.Duration(60 * time.Second)
	}
	if d.migOn {
		for _, f := range d.mig {
			conf.Migration.Function[f.Key] = &config.MigrationFunction{ID: f.ID, Title: "title", Command: cmd(f), Strategy: f.Strategy, FilenameRegexp: f.Re, FilenameReplacement: f.Repl, Timeout: tout(f), Pronoms: f.Pronoms}
		}
	}
	if d.thOn {
		for _, f := range d.th {
			tf := &config.ThumbnailFunction{ID: f.ID, Title: "title", Command: cmd(f) + " {width} {height} {background}", Timeout: tout(f), Pronoms: f.Pronoms}
			if f.Mime != "" {
				tf.Mime = []string{f.Mime}
			}
			conf.Thumbnail.Function[f.Key] = tf
		}
	}
	var err error
	if d.cfg.Migration, err = migration.GetMigrations(conf); err != nil {
		return err
	}
	if d.cfg.Thumb, err = thumbnail.GetThumbnails(conf); err != nil {
		return err
	}
	if !d.migOn && d.rng.Intn(2) == 0 {
		d.cfg.Migration = nil
	}
	if !d.thOn && d.rng.Intn(2) == 0 {
		d.cfg.Thumb = nil
	}
	return d.w.reload()
}

// ---- updates --------------------------------------------------------------

func (d *dcase) genUpd() *Upd {
	rng := d.rng
	u := genUpdHead(rng)
	u.Dedup = d.cfg.Dedup
	area := ""
	if d.cfg.Areas != nil && rng.Intn(4) == 0 {
		area = pick(rng, []string{"content", "extra"})
	}
	pre, _ := d.cfg.prefix(area)
	src := map[string][]byte{}
	cur := map[string][]byte{}
	for k, b := range d.state {
		if pre == "" || strings.HasPrefix(k, pre+"/") {
			cur[strings.TrimPrefix(strings.TrimPrefix(k, pre), "/")] = b
		}
	}
	paths := false
	for _, p := range d.place {
		paths = paths || p[0] == "path"
	}
	keys := sortedKeys(d.state)
	switch k := rng.Intn(8); {
	case k == 0 && len(keys) > 1:
		f := pick(rng, keys)
		if rng.Intn(2) == 0 {
			u.Ops = append(u.Ops, Op{Kind: "delete", Path: f})
		} else {
			u.Ops = append(u.Ops, Op{Kind: "rename", Path: f, To: path.Join(path.Dir(f), fmt.Sprintf("renamed%d%s", rng.Intn(1000), path.Ext(f)))})
		}
		return u
	case k == 1 && len(keys) > 0:
		// unchanged input
		u.Ops = append(u.Ops, Op{Kind: "folder", Area: area, Src: cur})
		u.Dedup = true
		return u
	case k == 2 && !paths && len(cur) > 0:
		u.Echo = true
		for f, b := range cur {
			src[f] = b
		}
		if len(src) > 1 {
			delete(src, pick(rng, sortedKeys(src)))
		}
	}
	for n := 1 + rng.Intn(4); n > 0; n-- {
		f, b := d.genFile()
		if rng.Intn(4) == 0 && len(src) > 0 {
			b = src[pick(rng, sortedKeys(src))]
		} else if rng.Intn(8) == 0 && len(keys) > 0 {
			b = d.state[pick(rng, keys)]
		}
		src[f] = b
	}
	if d.migOn && rng.Intn(3) == 0 {
		// what a tool will make of a file is there already, under another name
		l := pick(rng, sortedKeys(src))
		if p, _ := classify(src[l]); p != "" {
			if f := d.find(d.mig, p, ""); f != nil && !f.fails(src[l]) {
				src["made before "+path.Base(l)] = toolOutput(f.ID, src[l], "")
				d.w.r.Count("files_equal_to_a_derivative", 1)
			}
		}
	}
	u.Ops = append(u.Ops, Op{Kind: "folder", Area: area, Src: src})
	if rng.Intn(6) == 0 {
		f, b := d.genFile()
		if rng.Intn(2) == 0 {
			f = pick(rng, sortedKeys(src))
		}
		u.Ops = append(u.Ops, Op{Kind: pick(rng, []string{"data", "reader"}), Area: area, Path: f, Data: b})
	}
	return u
}

// fits drops inputs which would make a logical path also a directory
func (d *dcase) fits(u *Upd) bool {
	next := modelApply(d.cfg, d.state, u)
	for k := range next {
		if d.designated(k) {
			return false
		}
		for p := path.Dir(k); p != "."; p = path.Dir(p) {
			if _, ok := next[p]; ok {
				return false
			}
		}
	}
	// one content at a time for each name
	names := map[string]bool{}
	d.overwrites = false
	for _, op := range u.Ops {
		for n := range op.Src {
			names[d.cfg.logical(op.Area, n)] = true
		}
		if op.Path != "" && (op.Kind == "data" || op.Kind == "reader") {
			d.overwrites = d.overwrites || names[d.cfg.logical(op.Area, op.Path)]
		}
	}
	return len(next) > 0
}

// ---- monitors -------------------------------------------------------------

func (d *dcase) inv(t Tree) (*jinv, error) { return readInv(t[d.obj+"/inventory.json"]) }

func (d *dcase) stateOf(t Tree, ver string) (map[string][]byte, error) {
	st, _, err := resolveVersion(t, d.obj, ver)
	return st, err
}

type dmeta struct {
	pronom, mime map[string]string
	mig          map[string]*extension.MigrationResult // by derivative
	th           map[string]*extension.ThumbnailResult // by source
}

func (d *dcase) metadata(o ocfl.Object) (*dmeta, error) {
	m, err := o.GetMetadata()
	if err != nil {
		return nil, err
	}
	res := &dmeta{map[string]string{}, map[string]string{}, map[string]*extension.MigrationResult{}, map[string]*extension.ThumbnailResult{}}
	for cs, f := range m.Files {
		if x, ok := f.Extension["NNNN-indexer"].(*indexer.ResultV2); ok {
			res.pronom[cs], res.mime[cs] = x.Pronom, x.Mimetype
		}
		if x, ok := f.Extension["NNNN-migration"].(*extension.MigrationResult); ok {
			res.mig[cs] = x
		}
		switch x := f.Extension["NNNN-thumbnail"].(type) {
		case *extension.ThumbnailResult:
			if x.SourceDigest == cs {
				res.th[cs] = x
			}
		}
	}
	return res, nil
}

func (d *dcase) find(fns []*dfn, pronom, mime string) *dfn {
	for _, f := range fns {
		if slices.Contains(f.Pronoms, pronom) {
			return f
		}
	}
	for _, f := range fns {
		if f.Mime != "" && regexp.MustCompile(f.Mime).MatchString(mime) {
			return f
		}
	}
	return nil
}

func (d *dcase) judge(before, after Tree, u *Upd) {
	w := d.w
	inv, err := d.inv(after)
	if err != nil {
		w.violate("inventory", "no readable inventory after the update: "+err.Error())
		return
	}
	var head int
	fmt.Sscanf(inv.Head, "v%d", &head)
	next := modelApply(d.cfg, d.state, u)
	if head == d.vers {
		if !sameState(next, d.state) {
			w.violate("no-version", "a changing update made no version")
		}
		return
	}
	// nothing else than the new versions, the inventory and files of the extensions
	for _, x := range diffTrees(before, after) {
		p := diffParts(x)
		q := strings.TrimPrefix(strings.TrimSuffix(p[1], "/"), d.obj+"/")
		ok := strings.HasPrefix(d.obj+"/", p[1])
		if q == "inventory.json" || strings.HasPrefix(q, "inventory.json.") || d.vers == 0 && (strings.HasPrefix(q, "0=") || q == "extensions" || q == "extensions/initial" || strings.HasPrefix(q, "extensions/") && strings.HasSuffix(q, "config.json")) {
			ok = true
		}
		for v := d.vers + 1; v <= head; v++ {
			ok = ok || q == fmt.Sprintf("v%d", v) || strings.HasPrefix(q, fmt.Sprintf("v%d/", v))
		}
		if p[0] == "added" && strings.HasPrefix(q, "extensions/") {
			if d.vers == 0 && strings.Count(q, "/") == 1 {
				ok = true
			}
			for e, pl := range d.place {
				dir := "extensions/" + e + "/" + pl[1]
				if pl[0] == "extension" && (strings.HasPrefix(q, dir+"/") || q == dir || strings.HasPrefix(dir+"/", q+"/")) {
					ok = true
				}
			}
		}
		if !ok {
			w.violate("elsewhere", "the update changed what is no place for derivatives or their records: "+x)
			return
		}
	}
	uv := fmt.Sprintf("v%d", d.vers+1)
	st, err := d.stateOf(after, uv)
	if err != nil {
		w.violate("state", "version "+uv+" cannot be resolved: "+err.Error())
		return
	}
	if diff := stateDiff(next, d.pure(st)); len(diff) > 0 {
		w.violate("user-version", fmt.Sprintf("the user's version %s differs from the input: %v", uv, first(diff, 4)))
		return
	}
	o, err := d.fresh()
	if err != nil {
		w.violate("reload", "the object cannot be loaded: "+err.Error())
		return
	}
	var m *dmeta
	err, p := Guard(func() (e error) { m, e = d.metadata(o); return })
	if err != nil || p != "" {
		w.violate("metadata:"+panicSite(p), fmt.Sprintf("the object's metadata cannot be read: %v %s", err, p))
		return
	}
	if d.w.env.Last != nil {
		var m2 *dmeta
		err, p := Guard(func() (e error) { m2, e = d.metadata(d.w.env.Last); return })
		if err != nil || p != "" {
			w.violate("metadata-instance:"+panicSite(p), fmt.Sprintf("the metadata of the updated object cannot be read: %v %s", err, p))
			return
		}
		a, _ := json.Marshal([]any{m.mig, m.th})
		b, _ := json.Marshal([]any{m2.mig, m2.th})
		if !bytes.Equal(a, b) {
			w.violate("metadata-differs", fmt.Sprintf("migrations and thumbnails reported by the updated object differ from those reported when it is loaded:\n%s\n%s", b, a))
			return
		}
	}
	for l, b := range next {
		if p, _ := classify(b); m.pronom[d.digest(b)] != p {
			w.violate("format-record", fmt.Sprintf("the format of %q is recorded as %q instead of %q", l, m.pronom[d.digest(b)], p))
			return
		}
	}
	final := d.judgeMigrations(after, m, next, head, inv)
	if w.bad {
		return
	}
	d.state, d.vers = final, head
	d.judgeThumbs(after, m, inv)
	if w.bad {
		return
	}
	if errs := oracleErrors(oracleRoot(after, map[string]string{d.obj: d.id})); len(errs) > 0 {
		w.violate("nonconforming", "the object does not conform to OCFL: "+strings.Join(first(errs, 3), "; "))
		return
	}
	ve, _, err := validateDir(w.dir, d.cfg, nil)
	if err != nil || len(ve) > 0 {
		w.violate("invalid", fmt.Sprintf("validation of the object reports %v %v", err, ve))
	}
}

func (d *dcase) fresh() (o ocfl.Object, err error) {
	e, p := Guard(func() error {
		c := *d.cfg
		env, err := openRoot(d.w.dir, &c, nil)
		if err != nil {
			return err
		}
		o, err = env.SR.LoadObjectByID(d.id)
		return err
	})
	if p != "" {
		return nil, fmt.Errorf("panic: %s", p)
	}
	return o, e
}

func below(l string, all map[string]bool) bool {
	for p := path.Dir(l); p != "."; p = path.Dir(p) {
		if all[p] {
			return true
		}
	}
	for k := range all {
		if strings.HasPrefix(k, l+"/") {
			return true
		}
	}
	return false
}

func (d *dcase) judgeMigrations(after Tree, m *dmeta, next map[string][]byte, head int, inv *jinv) map[string][]byte {
	w, r := d.w, d.w.r
	// what is recorded stays recorded
	recs, err := d.records(after, inv)
	if err != nil {
		w.violate("records", "the records of migrations cannot be understood: "+err.Error())
		return nil
	}
	derived := map[string]bool{}
	for _, x := range recs {
		derived[x.D] = x.D != ""
	}
	for S, x := range recs {
		rep := m.mig[x.D]
		if x.Err != "" {
			rep = m.mig[S]
		}
		if x.Err != "" && derived[S] {
			continue // the derivative's own record is reported
		}
		if rep == nil || rep.Source != S && x.Err == "" || rep.Error != x.Err || rep.ID != x.ID {
			w.violate("record-reported", fmt.Sprintf("the migration of %s is recorded as %+v and reported as %+v", S[:8], x, rep))
			return nil
		}
	}
	derived = map[string]bool{}
	for _, x := range d.done {
		derived[x.D] = x.D != ""
	}
	for s, x := range d.done {
		if recs[s] != x {
			w.violate("record-lost", fmt.Sprintf("the migration of %s was recorded as %+v and is reported as %+v after a later update", s[:8], x, recs[s]))
			return nil
		}
	}
	names := map[string][]string{}
	data := map[string][]byte{}
	for l, b := range next {
		cs := d.digest(b)
		data[cs] = b
		if d.inContent(l) {
			names[cs] = append(names[cs], l)
		}
	}
	todo := map[string]*dfn{}
	nv := fmt.Sprintf("v%d", d.vers+2)
	targets := map[string][]string{} // destination -> sources
	if d.migOn {
		for cs, sf := range names {
			if _, ok := d.done[cs]; ok {
				continue
			}
			f := d.find(d.mig, m.pronom[cs], "")
			if f == nil {
				continue
			}
			todo[cs] = f
			for _, s := range sf {
				t := f.dest(s, nv, derived[cs])
				targets[t] = append(targets[t], cs)
			}
		}
	}
	for s := range recs {
		if _, ok := d.done[s]; !ok && todo[s] == nil {
			w.violate("record-unexpected", fmt.Sprintf("a migration of %s is recorded (%+v) which was not due", s[:8], recs[s]))
			return nil
		}
	}
	if len(todo) == 0 {
		if head != d.vers+1 {
			w.violate("unexpected-version", fmt.Sprintf("no migration was due but the head is v%d after an update of v%d", head, d.vers))
		}
		return next
	}
	r.Count("migrations_due", len(todo))
	if head != d.vers+2 {
		w.violate("no-migration-version", fmt.Sprintf("%d migrations were due but the head is v%d after an update of v%d", len(todo), head, d.vers))
		return nil
	}
	want := map[string][]byte{}
	all := map[string]bool{}
	for l, b := range next {
		want[l] = b
		all[l] = true
	}
	taken := map[string]bool{}
	for t := range targets {
		taken[t] = true
	}
	type add struct {
		l string
		b []byte
	}
	var adds []add
	for _, cs := range sortedKeys(todo) {
		f := todo[cs]
		rec, ok := recs[cs]
		if !ok {
			w.violate("unrecorded", fmt.Sprintf("the migration of %q (%s, %s) left no record", names[cs], m.pronom[cs], f.ID))
			return nil
		}
		if rec.ID != f.ID {
			w.violate("record-id", fmt.Sprintf("the migration of %q is recorded with %q instead of %q", names[cs], rec.ID, f.ID))
			return nil
		}
		conflict := false
		for _, s := range names[cs] {
			t := f.dest(s, nv, derived[cs])
			_, exists := next[t]
			own := slices.Contains(names[cs], t)
			switch {
			case t == "":
				conflict = true
			case exists && !(own && f.Strategy == "replace"):
				conflict = true
			case len(targets[t]) > 1 && slices.ContainsFunc(targets[t], func(x string) bool { return x != cs }):
				conflict = true
			case f.Strategy == "folder":
				conflict = conflict || taken[path.Join(s, path.Base(s))]
			case below(t, all) || below(t, taken):
				conflict = true
			}
			if !w.cfgPathOK(t) {
				conflict = true
			}
		}
		if rec.Err != "" {
			r.Count("migration_failures_recorded", 1)
			if conflict {
				r.Count("migration_conflicts_refused", 1)
			}
			if !conflict && !f.fails(data[cs]) {
				w.violate("migration-failed", fmt.Sprintf("the migration of %q by %+v failed: %s", names[cs], *f, rec.Err))
				return nil
			}
			continue
		}
		if f.fails(data[cs]) {
			w.violate("failure-hidden", fmt.Sprintf("the tool failed for %q but a derivative is recorded", names[cs]))
			return nil
		}
		r.Count("migrations_done_"+f.Strategy, 1)
		out := toolOutput(f.ID, data[cs], "")
		if rec.D != d.digest(out) {
			w.violate("derivative", fmt.Sprintf("the derivative recorded for %q is not what the tool made of it", names[cs]))
			return nil
		}
		for _, s := range names[cs] {
			t := f.dest(s, nv, derived[cs])
			if _, exists := next[t]; exists && !(slices.Contains(names[cs], t) && f.Strategy == "replace") {
				w.violate("overwritten", fmt.Sprintf("the derivative of %q (%s) was stored under the name %q of an ingested file", s, f.Strategy, t))
				return nil
			}
			switch f.Strategy {
			case "replace":
				if !slices.ContainsFunc(names[cs], func(x string) bool { return f.dest(x, nv, derived[cs]) == s }) {
					delete(want, s)
				}
			case "folder":
				if derived[cs] {
					r.Count("migrations_chained", 1)
					break
				}
				delete(want, s)
				adds = append(adds, add{path.Join(s, path.Base(s)), data[cs]})
			}
			adds = append(adds, add{t, out})
		}
	}
	for _, a := range adds {
		want[a.l] = a.b
	}
	st, err := d.stateOf(after, nv)
	if err != nil {
		w.violate("state", "version "+nv+" cannot be resolved: "+err.Error())
		return nil
	}
	if diff := stateDiff(want, d.pure(st)); len(diff) > 0 {
		w.violate("migrated-state", fmt.Sprintf("the state after the migration differs from what the strategies say: %v\n    recorded: %v", first(diff, 6), recs))
		return nil
	}
	for cs := range todo {
		d.done[cs] = recs[cs]
	}
	return want
}

// records are the stored records of migrations by the digest of their source
func (d *dcase) records(t Tree, inv *jinv) (map[string]drec, error) {
	lines, err := d.storedLines(t, "migration", "NNNN-migration")
	if err != nil {
		return nil, err
	}
	digests := map[string]string{}
	for cs, ps := range inv.Manifest {
		for _, p := range ps {
			digests[p] = cs
		}
	}
	recs := map[string]drec{}
	for _, l := range lines {
		var x struct {
			Path      string
			Migration struct{ Source, Error, ID string }
		}
		if err := json.Unmarshal([]byte(l), &x); err != nil {
			return nil, fmt.Errorf("%s: %w", l, err)
		}
		s, ok := digests[x.Migration.Source]
		if !ok {
			return nil, fmt.Errorf("no such source: %s", l)
		}
		if _, dup := recs[s]; dup {
			return nil, fmt.Errorf("%s has been migrated twice", x.Migration.Source)
		}
		r := drec{"", x.Migration.ID, x.Migration.Error}
		if r.Err == "" {
			if r.D, ok = digests[x.Path]; !ok {
				return nil, fmt.Errorf("no such derivative: %s", l)
			}
		}
		recs[s] = r
	}
	return recs, nil
}

func (w *World) cfgPathOK(l string) bool { return len(path.Base(l)) < 250 }

// storedLines reads the records of an extension from where they are stored, without the code under test
func (d *dcase) storedLines(t Tree, name, extName string) (lines []string, err error) {
	for p, b := range t {
		base := path.Base(p)
		if !strings.HasPrefix(p, d.obj+"/") || !strings.HasPrefix(base, name+"_v") || !strings.Contains(base, ".jsonl") {
			continue
		}
		var rd io.Reader = bytes.NewReader(b)
		switch path.Ext(base) {
		case ".gz":
			if rd, err = gzip.NewReader(rd); err != nil {
				return nil, fmt.Errorf("%s: %w", p, err)
			}
		case ".br":
			rd = brotli.NewReader(rd)
		}
		sc := bufio.NewScanner(rd)
		sc.Buffer(nil, 1<<24)
		for sc.Scan() {
			lines = append(lines, sc.Text())
		}
		if sc.Err() != nil {
			return nil, fmt.Errorf("%s: %w", p, sc.Err())
		}
	}
	return lines, nil
}

func avgColor(m image.Image) (r, g, b float64) {
	bd := m.Bounds()
	n := 0.0
	for y := bd.Min.Y; y < bd.Max.Y; y++ {
		for x := bd.Min.X; x < bd.Max.X; x++ {
			cr, cg, cb, _ := m.At(x, y).RGBA()
			r, g, b = r+float64(cr>>8), g+float64(cg>>8), b+float64(cb>>8)
			n++
		}
	}
	return r / n, g / n, b / n
}

func (d *dcase) judgeThumbs(after Tree, m *dmeta, inv *jinv) {
	if !d.hasTh {
		return
	}
	w, r := d.w, d.w.r
	pl := d.place["NNNN-thumbnail"]
	lines, err := d.storedLines(after, "thumbnail", "NNNN-thumbnail")
	if err != nil {
		w.violate("thumbnail-records", "records of thumbnails cannot be read: "+err.Error())
		return
	}
	// every stored thumbnail has a record, in the place configured
	dir := ""
	switch pl[0] {
	case "extension":
		dir = d.obj + "/extensions/NNNN-thumbnail/" + pl[1] + "/"
		have := map[string]bool{}
		for p := range after {
			if strings.HasPrefix(p, dir) && !strings.HasSuffix(p, "/") && !strings.Contains(path.Base(p), ".jsonl") {
				have[strings.TrimPrefix(p, d.obj+"/extensions/NNNN-thumbnail/")] = true
			}
		}
		for _, l := range lines {
			var x extension.ThumbnailResult
			if json.Unmarshal([]byte(l), &x) == nil {
				delete(have, x.Filename)
			}
		}
		if len(have) > 0 && d.cfg.Dedup && !d.overwrites && len(d.thDone) == 0 {
			w.violate("thumbnail-without-record", fmt.Sprintf("thumbnails without a record: %v", sortedKeys(have)))
			return
		}
		if len(have) > 0 {
			d.thDone["pruned"] = true
		}
	}
	r.Count("thumbnail_records", len(lines))
	seen := map[string]bool{}
	for l, b := range d.state {
		cs := d.digest(b)
		if seen[cs] {
			continue
		}
		seen[cs] = true
		x := m.th[cs]
		cfgImg, _, cerr := image.DecodeConfig(bytes.NewReader(b))
		img, _, ierr := image.Decode(bytes.NewReader(b))
		native := cerr == nil && ierr == nil && (d.thExt == "png" || d.thExt == "jpeg")
		flat := native && (cfgImg.Width == 0 || cfgImg.Height == 0)
		thin := native && !flat && (cfgImg.Width > cfgImg.Height*d.tw || cfgImg.Height > cfgImg.Width*d.thh)
		f := d.find(d.th, m.pronom[cs], m.mime[cs])
		switch {
		case x == nil:
			if native && !flat && !thin && m.pronom[cs] != "" {
				w.violate("thumbnail-missing", fmt.Sprintf("no thumbnail is recorded for the image %q (%dx%d)", l, cfgImg.Width, cfgImg.Height))
				return
			}
			if !native && f != nil && d.thOn && m.pronom[cs] != "" {
				w.violate("thumbnail-missing", fmt.Sprintf("no thumbnail is recorded for %q (%s %s)", l, m.pronom[cs], m.mime[cs]))
				return
			}
			continue
		case x.Error != "":
			r.Count("thumbnail_failures_recorded", 1)
			if f == nil || !f.fails(b) {
				w.violate("thumbnail-failed", fmt.Sprintf("the thumbnail of %q failed: %s", l, x.Error))
				return
			}
			continue
		}
		if x.ID != "internal" && (f == nil || x.ID != f.ID) {
			w.violate("thumbnail-id", fmt.Sprintf("the thumbnail of %q is recorded as made by %q", l, x.ID))
			return
		}
		var tb []byte
		ok := false
		if pl[0] == "extension" {
			tb, ok = after[d.obj+"/extensions/NNNN-thumbnail/"+x.Filename]
		} else {
			for v := 1; v <= d.vers && !ok; v++ {
				if st, err := d.stateOf(after, fmt.Sprintf("v%d", v)); err == nil {
					if b, is := st[x.Filename]; is && d.digest(b) == x.ThumbDigest {
						tb, ok = b, true
					}
				}
			}
			if ok && !d.designated(x.Filename) {
				w.violate("thumbnail-place", fmt.Sprintf("the thumbnail of %q is stored as %q", l, x.Filename))
				return
			}
		}
		if !ok {
			w.violate("thumbnail-unreachable", fmt.Sprintf("the thumbnail %q recorded for %q does not exist", x.Filename, l))
			return
		}
		r.Count("thumbnails_compared", 1)
		if x.ID != "internal" {
			if f.fails(b) {
				w.violate("thumbnail-failure-hidden", fmt.Sprintf("the tool failed for %q but a thumbnail is recorded", l))
				return
			}
			if want := toolOutput(f.ID, b, fmt.Sprintf("%d %d %s", d.tw, d.thh, d.bg)); !bytes.Equal(tb, want) {
				w.violate("thumbnail-content", fmt.Sprintf("the thumbnail recorded for %q is not what the tool made of it: %q", l, clip(string(tb), 60)))
				return
			}
			r.Count("thumbnails_by_tool", 1)
			continue
		}
		if !native {
			w.violate("thumbnail-of-nothing", fmt.Sprintf("an internal thumbnail is recorded for %q which is no image", l))
			return
		}
		ti, tf, err := image.Decode(bytes.NewReader(tb))
		if err != nil || tf != d.thExt {
			w.violate("thumbnail-broken", fmt.Sprintf("the thumbnail of %q cannot be decoded as %s: %s %v", l, d.thExt, tf, err))
			return
		}
		tbd := ti.Bounds()
		if tbd.Dx() > d.tw || tbd.Dy() > d.thh {
			w.violate("thumbnail-size", fmt.Sprintf("the thumbnail of %q (%dx%d) has %dx%d instead of at most %dx%d", l, cfgImg.Width, cfgImg.Height, tbd.Dx(), tbd.Dy(), d.tw, d.thh))
			return
		}
		r1, g1, b1 := avgColor(img)
		r2, g2, b2 := avgColor(ti)
		if max(r1-r2, r2-r1, g1-g2, g2-g1, b1-b2, b2-b1) > 12 {
			w.violate("thumbnail-foreign", fmt.Sprintf("the thumbnail of %q shows something else (%.0f %.0f %.0f instead of %.0f %.0f %.0f)", l, r2, g2, b2, r1, g1, b1))
			return
		}
		r.Count("thumbnails_internal", 1)
	}
}

// faulted lets a call fail while derivatives are made and stored. That's a failure of the update, not one of the tool.
func (d *dcase) faulted(tool string) {
	w, rng := d.w, d.rng
	if err := d.session(tool); err != nil {
		w.violate("session:"+errSummary(err), "the storage root cannot be loaded: "+err.Error())
		return
	}
	u := d.genUpd()
	for t := 0; t < 20 && !d.fits(u); t++ {
		u = d.genUpd()
	}
	if !d.fits(u) {
		return
	}
	root := w.dir + "/" + d.obj
	inv, err := os.ReadFile(root + "/inventory.json")
	if err != nil {
		w.violate("inventory", err.Error())
		return
	}
	user := fmt.Sprintf("%s/v%d/", d.obj, d.vers+1)
	auto := fmt.Sprintf("%s/v%d/", d.obj, d.vers+2)
	op := pick(rng, []string{"create", "write", "closew", "read"})
	skip, hit := rng.Intn(3), ""
	w.env.Rec.Fault = func(n int, o, p string) error {
		if o != op || hit != "" || strings.Contains(p, "inventory.json") {
			return nil
		}
		switch {
		case strings.HasPrefix(p, auto) && op != "read":
		case strings.HasPrefix(p, d.obj+"/extensions/NNNN-migration/"), strings.HasPrefix(p, d.obj+"/extensions/NNNN-thumbnail/"):
			if op == "read" || strings.HasSuffix(p, "config.json") {
				return nil
			}
		case strings.HasPrefix(p, user) && op == "read" && !strings.Contains(p, ".jsonl"):
		default:
			return nil
		}
		if skip > 0 {
			skip--
			return nil
		}
		hit = op + " " + p
		return fmt.Errorf("injected fault: %s", hit)
	}
	err, p := Guard(func() error { return w.env.update(d.id, u) })
	w.env.Rec.Fault = nil
	w.log = append(w.log, fmt.Sprintf("faulted (%s), migration %v, thumbnail %v: %s", hit, d.migOn, d.thOn, describe(d.id, u)))
	if p != "" {
		w.violate("op-panic:"+panicSite(p), "an update panicked: "+p)
		return
	}
	if hit == "" {
		return
	}
	w.r.Count("faults_"+op, 1)
	if err == nil {
		w.violate("fault-hidden:"+op, "an update during which "+hit+" failed was reported as successful")
		return
	}
	if now, err := os.ReadFile(root + "/inventory.json"); err != nil || !bytes.Equal(inv, now) {
		w.violate("fault-published", "the failed update ("+hit+") changed the inventory of the object")
	}
}

// unreadable lets the reading of a stored record fail, the metadata must not silently lack it
func (d *dcase) unreadable() {
	w := d.w
	op := pick(w.rng, []string{"open", "read"})
	skip := w.rng.Intn(2)
	hit := ""
	rec := NewRec()
	c := *d.cfg
	env, err := openRoot(w.dir, &c, rec)
	if err != nil {
		return
	}
	o, err := env.SR.LoadObjectByID(d.id)
	if err != nil {
		return
	}
	rec.Fault = func(n int, o, p string) error {
		if hit != "" || o != op || !strings.Contains(p, ".jsonl") {
			return nil
		}
		if b := path.Base(p); !strings.HasPrefix(b, "migration_v") && !strings.HasPrefix(b, "thumbnail_v") {
			return nil
		}
		if skip > 0 {
			skip--
			return nil
		}
		hit = o + " " + p
		return fmt.Errorf("injected fault: %s", hit)
	}
	err, p := Guard(func() error { _, e := o.GetMetadata(); return e })
	if p != "" {
		w.violate("unreadable-panic:"+panicSite(p), "reading the metadata panicked: "+p)
		return
	}
	if hit == "" {
		return
	}
	w.r.Count("unreadable_records", 1)
	if err == nil {
		w.violate("unreadable-hidden:"+op, "the metadata is reported as complete although "+hit+" failed")
	}
}

func c28(r *Run) {
	r.Assume = []string{"which files are due is taken from the formats the indexer extension reports", "a destination name which another file has is a failure of that migration"}
	tool := filepath.Join(r.Scratch, "tool.sh")
	if err := os.WriteFile(tool, []byte(toolScript), 0755); err != nil {
		r.Violate("harness", err.Error(), nil)
		return
	}
	tmp := filepath.Join(r.Scratch, "tmp")
	os.Mkdir(tmp, 0755)
	os.Setenv("TMPDIR", tmp)
	defer func() {
		if left, err := os.ReadDir(tmp); err != nil || len(left) > 0 {
			r.Violate("temporary-files", fmt.Sprintf("%d temporary files are left behind (%v), the first is %v", len(left), err, fmt.Sprint(left)), nil)
		}
	}()
	r.Parallel(r.N(600, 6000), func(i int) {
		rng := r.Rng("c28", i)
		d := newDcase(r, rng, i)
		var err error
		d.w, err = newWorld(r, rng, d.cfg, fmt.Sprintf("d%d", i))
		defer d.w.done()
		if err != nil {
			d.w.violate("init-error:"+errSummary(err), "a legitimate storage root cannot be initialised: "+err.Error())
			return
		}
		d.w.log = append(d.w.log, fmt.Sprintf("migrations %s", jsonOf(d.mig)), fmt.Sprintf("thumbnails %s", jsonOf(d.th)))
		d.id = "urn:d:" + fmt.Sprint(i)
		same := false
		for k, n := 0, 1+rng.Intn(4); k < n && !d.w.bad; k++ {
			same = k > 0 && rng.Intn(4) == 0 && d.w.env.Last != nil
			if !same {
				if err := d.session(tool); err != nil {
					d.w.violate("session:"+errSummary(err), "the storage root cannot be loaded: "+err.Error())
					return
				}
			}
			u := d.genUpd()
			for t := 0; t < 20 && !d.fits(u); t++ {
				u = d.genUpd()
			}
			if !d.fits(u) {
				continue
			}
			before := readTree(d.w.dir)
			err, p := Guard(func() error {
				if same {
					return d.w.env.updateObject(d.w.env.Last, u)
				}
				return d.w.env.update(d.id, u)
			})
			d.w.log = append(d.w.log, fmt.Sprintf("same instance %v, migration %v, thumbnail %v: %s", same, d.migOn, d.thOn, describe(d.id, u)))
			if p != "" {
				d.w.violate("op-panic:"+panicSite(p), "an update panicked: "+p)
				return
			}
			if err != nil {
				d.w.violate("op-error:"+errSummary(err), "a legitimate update failed: "+err.Error())
				return
			}
			after := readTree(d.w.dir)
			if ps := findObjects(after)[d.id]; len(ps) == 1 {
				d.obj = ps[0]
			} else {
				d.w.violate("object", fmt.Sprintf("the object is found at %v", ps))
				return
			}
			r.Count("updates_executed", 1)
			d.judge(before, after, u)
		}
		if !d.w.bad && d.vers > 0 {
			d.unreadable()
		}
		if !d.w.bad && d.vers > 0 {
			d.faulted(tool)
		}
		r.Case(d.cfg.Label+fmt.Sprint(len(d.done), d.vers), len(d.state) > 0)
		r.Sample(map[string]any{"config": d.cfg.Label, "history": first(d.w.log, 5)})
	})
}

func jsonOf(v any) string { b, _ := json.Marshal(v); return string(b) }
