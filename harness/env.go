package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path"
	"strings"
	"time"

	"github.com/je4/filesystem/v3/pkg/osfsrw"
	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
	"github.com/je4/gocfl/v2/pkg/subsystem/migration"
	"github.com/je4/gocfl/v2/pkg/subsystem/thumbnail"
	ironmaiden "github.com/je4/indexer/v3/pkg/indexer"
	"github.com/je4/utils/v2/pkg/checksum"
	"github.com/je4/utils/v2/pkg/zLogger"
	"github.com/rs/zerolog"
)

func nopLogger() zLogger.ZLogger {
	l := zerolog.New(io.Discard).Level(zerolog.Disabled)
	return &l
}

// ExtSpec is an extension folder: config.json and additional files
type ExtSpec struct {
	Name  string
	Cfg   map[string]any
	Files map[string]string
}

func ext(name string, kv ...any) ExtSpec {
	c := map[string]any{"extensionName": name}
	for i := 0; i+1 < len(kv); i += 2 {
		c[kv[i].(string)] = kv[i+1]
	}
	return ExtSpec{Name: name, Cfg: c}
}

const mgrName = "NNNN-gocfl-extension-manager"

// extFiles renders the extension folders
func extFiles(exts []ExtSpec) map[string][]byte {
	m := map[string][]byte{}
	for _, e := range exts {
		b, _ := json.MarshalIndent(e.Cfg, "", "  ")
		m[e.Name+"/config.json"] = b
		for n, c := range e.Files {
			m[e.Name+"/"+n] = []byte(c)
		}
	}
	return m
}

func mgrSpecs(sort map[string][]string, excl map[string][][]string) []ExtSpec {
	mg := ext(mgrName)
	if sort != nil {
		mg.Cfg["sort"] = sort
	}
	if excl != nil {
		mg.Cfg["exclusion"] = excl
	}
	return []ExtSpec{ext("initial", "extension", mgrName), mg}
}

// Cfg is the configuration of a storage root and of the objects created in it.
type Cfg struct {
	Ver                  string // OCFL version
	ObjVer               string // OCFL version of the objects if it is an earlier one
	Digest               string
	Fixity               []string
	Root                 []ExtSpec
	Obj                  []ExtSpec
	Params               map[string]string
	Dedup                bool
	Area                 string // default area passed to AddFolder
	Areas                map[string]string
	Label                string
	Layout               string
	LayoutSpec           ExtSpec
	Clean, HasFS, FSArea bool
	Derived              []string // logical paths (prefixes) of files written by extensions
	MetaFile             string   // file given to the metafile extension
	Folders              string   // file name that marks folders (filesystem extension)
	Index                bool

	Migration *migration.Migration
	Thumb     *thumbnail.Thumbnail
	Indexer   *ironmaiden.ActionDispatcher

	Probes   *probeSet // probe extensions (C19)
	ProbeLog *plog
}

func (c *Cfg) ver() ocfl.OCFLVersion { return ocfl.OCFLVersion(c.Ver) }

func (c *Cfg) objver() ocfl.OCFLVersion {
	if c.ObjVer != "" {
		return ocfl.OCFLVersion(c.ObjVer)
	}
	return c.ver()
}

// genObjVer lets some storage roots of OCFL 1.1 have objects of OCFL 1.0
func (c *Cfg) genObjVer(rng *rand.Rand) {
	if c.Ver == "1.1" && rng.Intn(4) == 0 {
		c.ObjVer = "1.0"
		c.Label += "+o1.0"
	}
}
func (c *Cfg) dig() checksum.DigestAlgorithm {
	return checksum.DigestAlgorithm(c.Digest)
}
func (c *Cfg) fix() []checksum.DigestAlgorithm {
	r := []checksum.DigestAlgorithm{}
	for _, f := range c.Fixity {
		r = append(r, checksum.DigestAlgorithm(f))
	}
	return r
}

func newFactory(c *Cfg) (*ocfl.ExtensionFactory, error) {
	logger := nopLogger()
	params := c.Params
	if params == nil {
		params = map[string]string{}
	}
	f, err := ocfl.NewExtensionFactory(params, logger)
	if err != nil {
		return nil, err
	}
	add := func(name string, fn func(fsys fs.FS) (ocfl.Extension, error)) { f.AddCreator(name, fn) }
	add(extension.InitialName, func(fsys fs.FS) (ocfl.Extension, error) { return extension.NewInitialFS(fsys) })
	add(extension.GOCFLExtensionManagerName, func(fsys fs.FS) (ocfl.Extension, error) { return extension.NewGOCFLExtensionManagerFS(fsys) })
	add(extension.DigestAlgorithmsName, func(fsys fs.FS) (ocfl.Extension, error) { return extension.NewDigestAlgorithmsFS(fsys) })
	add(extension.StorageLayoutFlatDirectName, func(fsys fs.FS) (ocfl.Extension, error) { return extension.NewStorageLayoutFlatDirectFS(fsys) })
	add(extension.StorageLayoutHashAndIdNTupleName, func(fsys fs.FS) (ocfl.Extension, error) {
		return extension.NewStorageLayoutHashAndIdNTupleFS(fsys)
	})
	add(extension.StorageLayoutHashedNTupleName, func(fsys fs.FS) (ocfl.Extension, error) {
		return extension.NewStorageLayoutHashedNTupleFS(fsys)
	})
	add(extension.FlatOmitPrefixStorageLayoutName, func(fsys fs.FS) (ocfl.Extension, error) {
		return extension.NewFlatOmitPrefixStorageLayoutFS(fsys)
	})
	add(extension.NTupleOmitPrefixStorageLayoutName, func(fsys fs.FS) (ocfl.Extension, error) {
		return extension.NewNTupleOmitPrefixStorageLayoutFS(fsys)
	})
	add(extension.DirectCleanName, func(fsys fs.FS) (ocfl.Extension, error) { return extension.NewDirectCleanFS(fsys) })
	add(extension.PathDirectName, func(fsys fs.FS) (ocfl.Extension, error) { return extension.NewPathDirectFS(fsys) })
	add(extension.StorageLayoutPairTreeName, func(fsys fs.FS) (ocfl.Extension, error) { return extension.NewStorageLayoutPairTreeFS(fsys) })
	add(extension.ContentSubPathName, func(fsys fs.FS) (ocfl.Extension, error) { return extension.NewContentSubPathFS(fsys) })
	add(extension.MetaFileName, func(fsys fs.FS) (ocfl.Extension, error) { return extension.NewMetaFileFS(fsys) })
	add(extension.IndexerName, func(fsys fs.FS) (ocfl.Extension, error) {
		return extension.NewIndexerFS(fsys, "", c.Indexer, false, logger)
	})
	add(extension.MigrationName, func(fsys fs.FS) (ocfl.Extension, error) {
		return extension.NewMigrationFS(fsys, c.Migration, logger)
	})
	add(extension.ThumbnailName, func(fsys fs.FS) (ocfl.Extension, error) {
		return extension.NewThumbnailFS(fsys, c.Thumb, logger)
	})
	add(extension.FilesystemName, func(fsys fs.FS) (ocfl.Extension, error) { return extension.NewFilesystemFS(fsys, logger) })
	add(extension.METSName, func(fsys fs.FS) (ocfl.Extension, error) { return extension.NewMetsFS(fsys, logger) })
	if c.Probes != nil {
		for i := range c.Probes.probes {
			i := i
			add(c.Probes.probes[i].name, func(fsys fs.FS) (ocfl.Extension, error) {
				return c.Probes.instance(c.ProbeLog, []int{i})[0], nil
			})
		}
	}
	return f, nil
}

// Env is an opened storage root over an instrumented filesystem.
type Env struct {
	Dir     string
	Rec     *Rec
	FS      fs.FS
	Ctx     context.Context
	Factory *ocfl.ExtensionFactory
	SR      ocfl.StorageRoot
	Cfg     *Cfg
	Last    ocfl.Object       // object of the last update
	Folders map[string]string // where the objects are, if the identifiers do not tell (roots of other tools)
}

func baseEnv(dir string, c *Cfg, rec *Rec) (*Env, error) {
	if rec == nil {
		rec = NewRec()
	}
	inner, err := osfsrw.NewFS(dir, nopLogger())
	if err != nil {
		return nil, err
	}
	return baseEnvFS(dir, NewXFS(inner, rec), c, rec)
}

func baseEnvFS(dir string, fsys fs.FS, c *Cfg, rec *Rec) (*Env, error) {
	f, err := newFactory(c)
	if err != nil {
		return nil, err
	}
	return &Env{Dir: dir, Rec: rec, FS: fsys, Ctx: ocfl.NewContextValidation(context.Background()), Factory: f, Cfg: c}, nil
}

// createRoot initialises a storage root in the (empty) directory
func createRoot(dir string, c *Cfg, rec *Rec) (*Env, error) {
	os.MkdirAll(dir, 0755)
	e, err := baseEnv(dir, c, rec)
	if err != nil {
		return nil, err
	}
	return e, e.create()
}

func (e *Env) create() error {
	mgr, err := e.Factory.LoadExtensions(NewMemFS(extFiles(e.Cfg.Root)), nil)
	if err != nil {
		return fmt.Errorf("root extensions: %w", err)
	}
	e.SR, err = ocfl.CreateStorageRoot(e.Ctx, e.FS, e.Cfg.ver(), e.Factory, mgr, e.Cfg.dig(), nopLogger())
	return err
}

// openRoot loads an existing storage root
func openRoot(dir string, c *Cfg, rec *Rec) (*Env, error) {
	e, err := baseEnv(dir, c, rec)
	if err != nil {
		return nil, err
	}
	return e, e.load()
}

func (e *Env) load() (err error) {
	e.SR, err = ocfl.LoadStorageRoot(e.Ctx, e.FS, e.Factory, nopLogger())
	return err
}

func (e *Env) objManager() (ocfl.ExtensionManager, error) {
	return e.Factory.LoadExtensions(NewMemFS(extFiles(e.Cfg.Obj)), nil)
}

// Op is one step of an update
type Op struct {
	Kind   string // folder, data, reader, delete, rename
	Path   string // delete/rename source (state path), data/reader name
	To     string
	Area   string
	Src    map[string][]byte // folder
	Dirs   []string          // empty directories in folder
	Data   []byte
	More   []string             // reader: further names
	SrcDir string               // folder: real directory that holds Src
	CTime  map[string]time.Time // folder: change times of the files in SrcDir
	Link   map[string]string    // folder: files which are links, and their targets
}

// Upd is one update of an object
type Upd struct {
	Msg, User, Addr string
	Echo            bool
	Dedup           bool
	Areas           bool // wrap each folder op in BeginArea/EndArea
	Ops             []Op
	SrcRec          *Rec // instrument the source
	SrcPrefix       string
	NoSeek          bool
}

// runOps performs the ops on an object for which StartUpdate was called
func runOps(o ocfl.Object, u *Upd) error {
	for _, op := range u.Ops {
		switch op.Kind {
		case "folder":
			var src fs.FS = NewMemFS(op.Src, op.Dirs...)
			if op.SrcDir != "" {
				d, err := osfsrw.NewFS(op.SrcDir, nopLogger())
				if err != nil {
					return fmt.Errorf("harness: %w", err)
				}
				src = d
			}
			if u.SrcRec != nil {
				x := NewXFS(src, u.SrcRec)
				x.prefix = u.SrcPrefix
				src = x
			}
			if u.Areas {
				o.BeginArea(op.Area)
			}
			if err := o.AddFolder(src, nil, u.Dedup, op.Area); err != nil {
				return fmt.Errorf("AddFolder: %w", err)
			}
			if u.Areas {
				if err := o.EndArea(); err != nil {
					return fmt.Errorf("EndArea: %w", err)
				}
			}
		case "data":
			if err := o.AddData(op.Data, op.Path, u.Dedup, op.Area, false, false); err != nil {
				return fmt.Errorf("AddData: %w", err)
			}
		case "reader":
			var rd io.Reader = bytes.NewReader(op.Data)
			if u.SrcRec != nil {
				rd = &recReader{rd, u.SrcRec, u.SrcPrefix + "/reader:" + op.Path}
			}
			if _, err := o.AddReader(io.NopCloser(rd), append([]string{op.Path}, op.More...), op.Area, false, false); err != nil {
				return fmt.Errorf("AddReader: %w", err)
			}
		case "delete":
			dg := stateDigest(o, op.Path)
			if err := o.DeleteFile(op.Path, dg); err != nil {
				return fmt.Errorf("DeleteFile: %w", err)
			}
		case "rename":
			dg := stateDigest(o, op.Path)
			if err := o.RenameFile(op.Path, op.To, dg); err != nil {
				return fmt.Errorf("RenameFile: %w", err)
			}
		}
	}
	return nil
}

// recReader is an instrumented stream
type recReader struct {
	r   io.Reader
	rec *Rec
	p   string
}

func (r *recReader) Read(b []byte) (int, error) {
	if err := r.rec.call("read", r.p); err != nil {
		if r.rec.takePartial() && len(b) > 1 {
			n, _ := r.r.Read(b[:len(b)/2])
			return n, err
		}
		return 0, err
	}
	return r.r.Read(b)
}

// stateDigest looks the digest of a logical path up in the head version
func stateDigest(o ocfl.Object, p string) string {
	i := o.GetInventory()
	v := i.GetVersions()[i.GetHead()]
	if v == nil {
		return ""
	}
	for d, fs := range v.State.State {
		for _, f := range fs {
			if f == p {
				return d
			}
		}
	}
	return ""
}

// update creates (if it does not exist) or updates an object, following the flow of the gocfl commands.
func (e *Env) update(id string, u *Upd) error {
	if p, ok := e.Folders[id]; ok {
		o, err := e.SR.LoadObjectByFolder(p)
		if err != nil {
			return fmt.Errorf("LoadObjectByFolder: %w", err)
		}
		return e.updateObject(o, u)
	}
	exists, err := e.SR.ObjectExists(id)
	if err != nil {
		return fmt.Errorf("ObjectExists: %w", err)
	}
	var o ocfl.Object
	if exists {
		o, err = e.SR.LoadObjectByID(id)
		if err != nil {
			return fmt.Errorf("LoadObjectByID: %w", err)
		}
	} else {
		mgr, err := e.objManager()
		if err != nil {
			return fmt.Errorf("object extensions: %w", err)
		}
		o, err = e.SR.CreateObject(id, e.Cfg.objver(), e.Cfg.dig(), e.Cfg.fix(), mgr)
		if err != nil {
			return fmt.Errorf("CreateObject: %w", err)
		}
	}
	return e.updateObject(o, u)
}

func (e *Env) updateObject(o ocfl.Object, u *Upd) error {
	e.Last = o
	if _, err := o.StartUpdate(nil, u.Msg, u.User, u.Addr, u.Echo); err != nil {
		return fmt.Errorf("StartUpdate: %w", err)
	}
	if err := runOps(o, u); err != nil {
		return err
	}
	if err := o.EndUpdate(); err != nil {
		return fmt.Errorf("EndUpdate: %w", err)
	}
	if err := o.Close(); err != nil {
		return fmt.Errorf("Close: %w", err)
	}
	return nil
}

// extract extracts a version into a fresh directory and returns what is there
func (e *Env) extract(id, version string, manifest bool, area string, dir string, rec *Rec) (Tree, error) {
	os.MkdirAll(dir, 0755)
	t, err := osfsrw.NewFS(dir, nopLogger())
	if err != nil {
		return nil, err
	}
	if rec == nil {
		rec = NewRec()
	}
	if p, ok := e.Folders[id]; ok {
		err = e.SR.Extract(NewXFS(t, rec), p, "", version, manifest, area)
	} else {
		err = e.SR.Extract(NewXFS(t, rec), "", id, version, manifest, area)
	}
	return readTree(dir), err
}

type VErr struct{ Code, Text string }

// statusOf returns the validation errors and warnings collected in the context so far
func (e *Env) statusOf() (errs, warns []VErr) {
	st, err := ocfl.GetValidationStatus(e.Ctx)
	if err != nil {
		return
	}
	for _, v := range st.Errors {
		ve := VErr{string(v.Code), v.Description2 + " @ " + v.Context}
		if strings.HasPrefix(ve.Code, "E") {
			errs = append(errs, ve)
		} else {
			warns = append(warns, ve)
		}
	}
	return
}

// validate runs the validator over the directory; error is what it returned.
func validateDir(dir string, c *Cfg, rec *Rec) (errs, warns []VErr, err error) {
	e, err := openRoot(dir, c, rec)
	if e == nil {
		return nil, nil, err
	}
	if err != nil {
		errs, warns = e.statusOf()
		return errs, warns, fmt.Errorf("load: %w", err)
	}
	err = e.SR.Check()
	errs, warns = e.statusOf()
	return
}

func verrStrings(v []VErr) []string {
	r := []string{}
	for _, e := range v {
		r = append(r, e.Code+" "+e.Text)
	}
	return r
}

// errSummary gives a stable, input independent key for an error: the wrap messages without their arguments.
func errSummary(err error) string {
	if err == nil {
		return ""
	}
	s := err.Error()
	if i := strings.Index(s, "\n"); i > 0 {
		s = s[:i]
	}
	var b strings.Builder
	inq := false
	for _, c := range s {
		switch {
		case c == '\'' || c == '[' || c == ']':
			inq = c == '[' || (c == '\'' && !inq)
			if c == ']' {
				inq = false
			}
		case inq:
		case c >= '0' && c <= '9':
		default:
			b.WriteRune(c)
		}
	}
	return clip(strings.Join(strings.Fields(b.String()), " "), 120)
}

func objPathOf(dir string) string { return path.Clean(dir) }

// osSub opens a folder of the real filesystem
func osSub(dir, sub string) (fs.FS, error) {
	return osfsrw.NewFS(path.Join(dir, sub), nopLogger())
}
