package main

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"strings"
	"sync"
	"time"

	"github.com/je4/filesystem/v3/pkg/writefs"
)

// Event is one call on a wrapped filesystem.
type Event struct {
	N    int
	Op   string // open stat readdir readfile sub create mkdir rename remove write close(w) read closeR
	Path string
	Err  bool
}

var errInjected = errors.New("injected I/O fault")

// Rec records the calls on a wrapped filesystem, injects faults and accounts open handles.
type Rec struct {
	mu       sync.Mutex
	N        int
	Events   []Event
	Keep     bool
	open     map[int]string // open handles
	nextH    int
	dblClose int
	maxOpen  int
	// Fault decides whether call number n (op on path) fails; returns the error to inject.
	Fault func(n int, op, p string) error
	// Dead: after a crash every mutating call fails without any effect
	Dead bool
	// Deny: any mutating call is refused and recorded
	ReadOnly  bool
	Mutations []Event
	Bytes     int64
	NoSeek    bool
	At        bool // opened files support io.ReaderAt
	ShortRead bool
	FaultHit  bool
	torn      bool // at the fault, a write is performed partially
	partial   bool // at the fault, a read or directory listing delivers a part
	Allowed   func(p string) bool
	Escapes   []string
	Delay     func(op string) // schedule perturbation
}

func NewRec() *Rec { return &Rec{open: map[int]string{}} }

func mutating(op string) bool {
	switch op {
	case "create", "mkdir", "rename", "remove", "write", "closew":
		return true
	}
	return false
}

func (r *Rec) call(op, p string) error {
	if r.Delay != nil {
		r.Delay(op)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.N++
	ev := Event{N: r.N, Op: op, Path: p}
	var err error
	if mutating(op) {
		if op == "create" || op == "mkdir" || op == "rename" || op == "remove" {
			if clean := path.Clean("/" + p); escapes(p) || clean == "/" && op != "mkdir" {
				r.Escapes = append(r.Escapes, op+" "+p)
				err = fmt.Errorf("harness: path '%s' leaves the filesystem", p)
			}
		}
		if r.ReadOnly {
			err = fmt.Errorf("%s %s: %w", op, p, fs.ErrPermission)
		}
		if r.Dead {
			err = errInjected
		}
		r.Mutations = append(r.Mutations, ev)
	}
	if err == nil && r.Fault != nil {
		if ferr := r.Fault(r.N, op, p); ferr != nil {
			err = ferr
			r.FaultHit = true
		}
	}
	ev.Err = err != nil
	if r.Keep {
		r.Events = append(r.Events, ev)
	}
	return err
}

// escapes reports whether p, interpreted relative to a directory, leaves it
func escapes(p string) bool {
	depth := 0
	for _, s := range strings.Split(p, "/") {
		switch s {
		case "", ".":
		case "..":
			depth--
			if depth < 0 {
				return true
			}
		default:
			depth++
		}
	}
	return false
}

func (r *Rec) takePartial() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	p := r.partial
	r.partial = false
	return p
}

func (r *Rec) opened(p string) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.nextH++
	r.open[r.nextH] = p
	if len(r.open) > r.maxOpen {
		r.maxOpen = len(r.open)
	}
	return r.nextH
}

func (r *Rec) closed(h int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if _, ok := r.open[h]; !ok {
		r.dblClose++
		return
	}
	delete(r.open, h)
}

// OpenHandles lists the files that are still open
func (r *Rec) OpenHandles() []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	res := []string{}
	for _, p := range r.open {
		res = append(res, p)
	}
	return res
}

// XFS wraps a filesystem.
type XFS struct {
	inner  fs.FS
	rec    *Rec
	prefix string
}

func NewXFS(inner fs.FS, rec *Rec) *XFS { return &XFS{inner: inner, rec: rec} }

func (x *XFS) p(name string) string {
	if x.prefix == "" {
		return name
	}
	if name == "." || name == "" {
		return x.prefix
	}
	return x.prefix + "/" + name
}

func (x *XFS) String() string { return fmt.Sprintf("xfs(%v)", x.inner) }

func (x *XFS) Open(name string) (fs.File, error) {
	if err := x.rec.call("open", x.p(name)); err != nil {
		return nil, err
	}
	f, err := x.inner.Open(name)
	if err != nil {
		return nil, err
	}
	xf := &xfile{f: f, rec: x.rec, p: x.p(name), h: x.rec.opened(x.p(name))}
	if _, ok := f.(io.ReaderAt); ok && x.rec.At {
		return &xfileAt{&xfileSeek{xf}}, nil
	}
	if _, ok := f.(io.Seeker); ok && !x.rec.NoSeek {
		return &xfileSeek{xf}, nil
	}
	return xf, nil
}

func (x *XFS) Stat(name string) (fs.FileInfo, error) {
	if err := x.rec.call("stat", x.p(name)); err != nil {
		return nil, err
	}
	return fs.Stat(x.inner, name)
}

func (x *XFS) ReadDir(name string) ([]fs.DirEntry, error) {
	if err := x.rec.call("readdir", x.p(name)); err != nil {
		if x.rec.takePartial() {
			if ents, e := fs.ReadDir(x.inner, name); e == nil {
				return ents[:len(ents)/2], err
			}
		}
		return nil, err
	}
	return fs.ReadDir(x.inner, name)
}

func (x *XFS) ReadFile(name string) ([]byte, error) {
	if err := x.rec.call("readfile", x.p(name)); err != nil {
		return nil, err
	}
	return fs.ReadFile(x.inner, name)
}

func (x *XFS) Sub(dir string) (fs.FS, error) {
	if err := x.rec.call("sub", x.p(dir)); err != nil {
		return nil, err
	}
	in, err := fs.Sub(x.inner, dir)
	if err != nil {
		return nil, err
	}
	np := x.p(dir)
	if dir == "." {
		np = x.prefix
	}
	return &XFS{inner: in, rec: x.rec, prefix: np}, nil
}

func (x *XFS) Create(name string) (writefs.FileWrite, error) {
	if err := x.rec.call("create", x.p(name)); err != nil {
		return nil, err
	}
	w, err := writefs.Create(x.inner, name)
	if err != nil {
		return nil, err
	}
	return &xwriter{w: w, rec: x.rec, p: x.p(name), h: x.rec.opened(x.p(name))}, nil
}

func (x *XFS) MkDir(name string) error {
	if err := x.rec.call("mkdir", x.p(name)); err != nil {
		return err
	}
	return writefs.MkDir(x.inner, name)
}

func (x *XFS) Rename(o, n string) error {
	if err := x.rec.call("rename", x.p(n)); err != nil {
		return err
	}
	return writefs.Rename(x.inner, o, n)
}

func (x *XFS) Remove(n string) error {
	if err := x.rec.call("remove", x.p(n)); err != nil {
		return err
	}
	return writefs.Remove(x.inner, n)
}

func (x *XFS) Fullpath(n string) (string, error) {
	return writefs.Fullpath(x.inner, n)
}

type xfile struct {
	f    fs.File
	rec  *Rec
	p    string
	h    int
	done bool
}

func (f *xfile) Stat() (fs.FileInfo, error) { return f.f.Stat() }
func (f *xfile) Read(b []byte) (int, error) {
	if err := f.rec.call("read", f.p); err != nil {
		if f.rec.takePartial() && len(b) > 1 {
			n, _ := f.f.Read(b[:len(b)/2])
			return n / 2, err
		}
		return 0, err
	}
	if f.rec.ShortRead && len(b) > 7 {
		b = b[:1+len(b)/3]
	}
	return f.f.Read(b)
}
func (f *xfile) Close() error {
	f.rec.closed(f.h)
	err := f.rec.call("closer", f.p)
	if e := f.f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}
func (f *xfile) ReadDir(n int) ([]fs.DirEntry, error) {
	if d, ok := f.f.(fs.ReadDirFile); ok {
		return d.ReadDir(n)
	}
	return nil, errors.New("not a directory")
}

type xfileSeek struct{ *xfile }

func (f *xfileSeek) Seek(o int64, w int) (int64, error) { return f.f.(io.Seeker).Seek(o, w) }

// xfileAt is what the zip file system needs to read a container
type xfileAt struct{ *xfileSeek }

func (f *xfileAt) ReadAt(b []byte, o int64) (int, error) { return f.f.(io.ReaderAt).ReadAt(b, o) }

type xwriter struct {
	w   writefs.FileWrite
	rec *Rec
	p   string
	h   int
}

func (w *xwriter) Write(b []byte) (int, error) {
	if err := w.rec.call("write", w.p); err != nil {
		if w.rec.torn && !w.rec.ReadOnly && len(b) > 1 {
			w.rec.torn = false
			n, _ := w.w.Write(b[:len(b)/2])
			return n, err
		}
		return 0, err
	}
	n, err := w.w.Write(b)
	w.rec.mu.Lock()
	w.rec.Bytes += int64(n)
	w.rec.mu.Unlock()
	return n, err
}

func (w *xwriter) Close() error {
	w.rec.closed(w.h)
	err := w.rec.call("closew", w.p)
	if e := w.w.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

// MemFS is an in-memory read-only source tree with directories, usable as ingest source.
type MemFS struct {
	files map[string][]byte
	dirs  map[string]map[string]bool // dir -> entries (name -> isDir)
	mtime time.Time
}

func NewMemFS(files map[string][]byte, emptyDirs ...string) *MemFS {
	m := &MemFS{files: files, dirs: map[string]map[string]bool{".": {}}, mtime: time.Date(2020, 2, 3, 4, 5, 6, 0, time.UTC)}
	add := func(p string, isDir bool) {
		for {
			d, n := path.Dir(p), path.Base(p)
			if m.dirs[d] == nil {
				m.dirs[d] = map[string]bool{}
			}
			m.dirs[d][n] = isDir
			if d == "." {
				return
			}
			p, isDir = d, true
		}
	}
	for p := range files {
		add(p, false)
	}
	for _, d := range emptyDirs {
		add(d, true)
		if m.dirs[d] == nil {
			m.dirs[d] = map[string]bool{}
		}
	}
	return m
}

type memInfo struct {
	name string
	size int64
	dir  bool
	t    time.Time
}

func (i memInfo) Name() string { return i.name }
func (i memInfo) Size() int64  { return i.size }
func (i memInfo) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0755
	}
	return 0644
}
func (i memInfo) ModTime() time.Time         { return i.t }
func (i memInfo) IsDir() bool                { return i.dir }
func (i memInfo) Sys() any                   { return nil }
func (i memInfo) Type() fs.FileMode          { return i.Mode().Type() }
func (i memInfo) Info() (fs.FileInfo, error) { return i, nil }

func (m *MemFS) String() string { return "memfs" }

func (m *MemFS) Stat(name string) (fs.FileInfo, error) {
	if b, ok := m.files[name]; ok {
		return memInfo{path.Base(name), int64(len(b)), false, m.mtime}, nil
	}
	if _, ok := m.dirs[name]; ok {
		return memInfo{path.Base(name), 0, true, m.mtime}, nil
	}
	return nil, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrNotExist}
}

func (m *MemFS) ReadDir(name string) ([]fs.DirEntry, error) {
	if name == "" {
		name = "."
	}
	ents, ok := m.dirs[name]
	if !ok {
		return nil, &fs.PathError{Op: "readdir", Path: name, Err: fs.ErrNotExist}
	}
	names := []string{}
	for n := range ents {
		names = append(names, n)
	}
	sortStrings(names)
	res := []fs.DirEntry{}
	for _, n := range names {
		fi, err := m.Stat(path.Join(name, n))
		if err != nil {
			return nil, err
		}
		res = append(res, fi.(memInfo))
	}
	return res, nil
}

func (m *MemFS) Open(name string) (fs.File, error) {
	fi, err := m.Stat(name)
	if err != nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	return &memFile{m: m, name: name, fi: fi.(memInfo), data: m.files[name]}, nil
}

// Fullpath is implemented so that extensions which ask for it get an answer
func (m *MemFS) Fullpath(name string) (string, error) { return "/nonexistent-memfs/" + name, nil }

type memFile struct {
	m    *MemFS
	name string
	fi   memInfo
	data []byte
	off  int64
}

func (f *memFile) Stat() (fs.FileInfo, error) { return f.fi, nil }
func (f *memFile) Close() error               { return nil }
func (f *memFile) Read(b []byte) (int, error) {
	if f.fi.dir {
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: errors.New("is a directory")}
	}
	if f.off >= int64(len(f.data)) {
		return 0, io.EOF
	}
	n := copy(b, f.data[f.off:])
	f.off += int64(n)
	return n, nil
}
func (f *memFile) Seek(o int64, w int) (int64, error) {
	switch w {
	case io.SeekStart:
		f.off = o
	case io.SeekCurrent:
		f.off += o
	case io.SeekEnd:
		f.off = int64(len(f.data)) + o
	}
	return f.off, nil
}
func (f *memFile) ReadDir(n int) ([]fs.DirEntry, error) { return f.m.ReadDir(f.name) }
