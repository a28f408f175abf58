package main

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/je4/gocfl/v2/pkg/ocfl"
)

func init() {
	register("C08", "exploration", "identifiers (ASCII, multibyte, long, hostile, delimiter carrying) under random valid parameters of every storage layout extension, repeated, interleaved with other identifiers, from several goroutines and from fresh extension instances; compared with an implementation written from the published layout specifications; a sample is created end to end and located on disk. Distinct = layout, parameter set and identifier class", c08)
}

var errRefuse = errors.New("the specification refuses this identifier")
var errSkip = errors.New("not defined by the specification")

// layoutRef computes the storage path from the text of the layout specification
func layoutRef(spec ExtSpec, id string) (string, error) {
	str := func(k, def string) string {
		if v, ok := spec.Cfg[k].(string); ok {
			return v
		}
		return def
	}
	num := func(k string, def int) int {
		if v, ok := spec.Cfg[k].(int); ok {
			return v
		}
		return def
	}
	flag := func(k string) bool { v, _ := spec.Cfg[k].(bool); return v }
	hashed := func(enc func(dg string, rest string) string) (string, error) {
		dg := digest(str("digestAlgorithm", "sha256"), []byte(id))
		ts, nt := num("tupleSize", 3), num("numberOfTuples", 3)
		if ts*nt > len(dg) {
			return "", errRefuse
		}
		var parts []string
		for i := 0; i < nt; i++ {
			parts = append(parts, dg[i*ts:i*ts+ts])
		}
		last := enc(dg, dg[ts*nt:])
		if last == "" {
			return "", errRefuse
		}
		return strings.Join(append(parts, last), "/"), nil
	}
	omit := func() (string, error) {
		d := str("delimiter", "")
		if d == "" {
			return id, nil
		}
		// the right-most match, ignoring case (ASCII only: the generator uses ASCII delimiters)
		low := func(s string) string {
			b := []byte(s)
			for i, c := range b {
				if 'A' <= c && c <= 'Z' {
					b[i] = c + 32
				}
			}
			return string(b)
		}
		at := strings.LastIndex(low(id), low(d))
		if at < 0 {
			return id, nil
		}
		rest := id[at+len(d):]
		if rest == "" {
			return "", errRefuse
		}
		return rest, nil
	}
	switch spec.Name {
	case "0002-flat-direct-storage-layout", "NNNN-direct-path-layout":
		return id, nil
	case "0003-hash-and-id-n-tuple-storage-layout":
		return hashed(func(dg, _ string) string {
			var b strings.Builder
			for i := 0; i < len(id); i++ {
				c := id[i]
				if strings.IndexByte("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", c) >= 0 {
					b.WriteByte(c)
				} else {
					b.WriteString("%" + string("0123456789abcdef"[c>>4]) + string("0123456789abcdef"[c&15]))
				}
			}
			e := b.String()
			if len(e) > 100 {
				e = e[:100] + "-" + dg
			}
			return e
		})
	case "0004-hashed-n-tuple-storage-layout":
		return hashed(func(dg, rest string) string {
			if flag("shortObjectRoot") {
				return rest
			}
			return dg
		})
	case "0006-flat-omit-prefix-storage-layout":
		rest, err := omit()
		if err == nil && (strings.Contains(rest, "/") || rest == "." || rest == "..") {
			return rest, errSkip
		}
		return rest, err
	case "0007-n-tuple-omit-prefix-storage-layout":
		rest, err := omit()
		if err != nil {
			return "", err
		}
		if strings.Contains(rest, "/") || rest == "." || rest == ".." {
			return "", errSkip
		}
		ts, nt := num("tupleSize", 3), num("numberOfTuples", 3)
		chars := []rune(rest)
		for len(chars) < ts*nt {
			if str("zeroPadding", "left") == "left" {
				chars = append([]rune{'0'}, chars...)
			} else {
				chars = append(chars, '0')
			}
		}
		if flag("reverseObjectRoot") {
			for i, j := 0, len(chars)-1; i < j; i, j = i+1, j-1 {
				chars[i], chars[j] = chars[j], chars[i]
			}
		}
		var parts []string
		for i := 0; i < nt; i++ {
			t := string(chars[i*ts : i*ts+ts])
			if t == "." || t == ".." {
				return "", errSkip
			}
			parts = append(parts, t)
		}
		return strings.Join(append(parts, rest), "/"), nil
	case "NNNN-pairtree-storage-layout":
		var b []byte
		for i := 0; i < len(id); i++ {
			c := id[i]
			switch {
			case c < 0x21 || c > 0x7e || strings.IndexByte(`"*+,<=>?\^|`, c) >= 0:
				b = append(b, fmt.Sprintf("^%02x", c)...)
			case c == '/':
				b = append(b, '=')
			case c == ':':
				b = append(b, '+')
			case c == '.':
				b = append(b, ',')
			default:
				b = append(b, c)
			}
		}
		n := num("shortyLength", 2)
		if n == 0 {
			n = 2
		}
		var parts []string
		for len(b) > n {
			parts, b = append(parts, string(b[:n])), b[n:]
		}
		return strings.Join(append(parts, string(b)), "/"), nil
	}
	panic("unknown layout " + spec.Name)
}

var c08algs = []string{"sha512", "sha256", "md5", "sha1", "blake2b-160", "blake2b-256", "blake2b-384", "blake2b-512"}

// genLayout makes a valid parameter set (sometimes leaving a parameter to its default)
func genLayout(rng *rand.Rand) (ExtSpec, string) {
	tuples := func(e ExtSpec, zero bool) string {
		ts, nt := 1+rng.Intn(6), 1+rng.Intn(6)
		switch rng.Intn(8) {
		case 0:
			if zero {
				ts, nt = 0, 0
			}
		case 1:
			ts, nt = 1+rng.Intn(32), 1+rng.Intn(4)
		case 2:
			ts, nt = 1+rng.Intn(3), 1+rng.Intn(32)
		case 3:
			// exactly the digest
			if n, ok := map[string]int{"sha512": 128, "sha256": 64, "md5": 32, "sha1": 40}[fmt.Sprint(e.Cfg["digestAlgorithm"])]; ok {
				ts = pick(rng, []int{4, 8, 16, 32})
				nt = n / ts
				if nt > 32 {
					nt = 32
				}
				if nt == 0 {
					nt = 1
				}
			}
		case 4:
			return "def"
		}
		e.Cfg["tupleSize"], e.Cfg["numberOfTuples"] = ts, nt
		return fmt.Sprintf("%dx%d", ts, nt)
	}
	switch rng.Intn(8) {
	case 0:
		return ext("0002-flat-direct-storage-layout"), "0002"
	case 1, 2:
		e := ext("0003-hash-and-id-n-tuple-storage-layout")
		if rng.Intn(5) != 0 {
			e.Cfg["digestAlgorithm"] = pick(rng, c08algs)
		}
		t := tuples(e, true)
		return e, fmt.Sprint("0003/", e.Cfg["digestAlgorithm"], "/", t)
	case 3, 4:
		e := ext("0004-hashed-n-tuple-storage-layout")
		if rng.Intn(5) != 0 {
			e.Cfg["digestAlgorithm"] = pick(rng, c08algs)
		}
		short := rng.Intn(2) == 0
		e.Cfg["shortObjectRoot"] = short
		t := tuples(e, true)
		return e, fmt.Sprint("0004/", e.Cfg["digestAlgorithm"], "/", t, "/", short)
	case 5:
		d := pick(rng, []string{":", "/", "edu/", "urn:", "Ab", "::", "a", "."})
		return ext("0006-flat-omit-prefix-storage-layout", "delimiter", d), "0006/" + d
	case 6:
		d := pick(rng, []string{":", "/", "edu/", "urn:", "Ab", "::", "a", "."})
		e := ext("0007-n-tuple-omit-prefix-storage-layout", "delimiter", d)
		t := tuples(e, false)
		pad := "def"
		if rng.Intn(4) != 0 {
			pad = pick(rng, []string{"left", "right"})
			e.Cfg["zeroPadding"] = pad
		}
		rev := false
		if rng.Intn(4) != 0 {
			rev = rng.Intn(2) == 0
			e.Cfg["reverseObjectRoot"] = rev
		}
		return e, fmt.Sprint("0007/", d, "/", t, "/", pad, "/", rev)
	case 7:
		if rng.Intn(3) == 0 {
			return ext("NNNN-direct-path-layout"), "pathdirect"
		}
	}
	n := rng.Intn(6)
	return ext("NNNN-pairtree-storage-layout", "uriBase", "info:", "storeDir", pick(rng, []string{"", "store"}), "shortyLength", n, "digestAlgorithm", pick(rng, c08algs)), fmt.Sprint("pairtree/", n)
}

var c08pieces = []string{"a", "b", "Z", "0", "9", "-", "_", ".", "..", ":", "::", "/", "edu/", "EDU/", "Edu/", "urn:", "URN:", "ab", "aB", "AB", "=", "^", "%", "%2f", " ", "\t", "\n", "\"", "*", "+", ",", "<", ">", "?", "\\", "|", "~", "!", "@", "#", "é", "ü", "日", "本", "😀", "\u200b", "e\u0301", "\u007f", "\u0001", "ÿ", "İ", "ſ", "K", "ß"}

func genID(rng *rand.Rand) (string, string) {
	switch rng.Intn(10) {
	case 0:
		return fmt.Sprintf("obj%d", rng.Intn(100000)), "plain"
	case 1:
		return fmt.Sprintf("%s%d", pick(rng, []string{"info:fedora/", "urn:uuid:", "http://example.org/", "https://institution.edu/", "ark:/12148/"}), rng.Intn(100000)), "uri"
	case 2: // around the 100 character limit of 0003
		n := 94 + rng.Intn(12)
		return strings.Repeat("x", n-rng.Intn(3)) + pick(rng, []string{"", "é", "日", ":"}), "limit"
	case 3:
		return strings.Repeat(pick(rng, c08pieces), 1+rng.Intn(120)) + "z", "repeated"
	case 4: // any unicode
		var b strings.Builder
		for n := 1 + rng.Intn(30); n > 0; n-- {
			c := rune(rng.Intn(0x110000))
			if !utf8.ValidRune(c) || c == 0 {
				c = 'x'
			}
			b.WriteRune(c)
		}
		return b.String(), "unicode"
	case 5: // all of ASCII
		var b strings.Builder
		for n := 1 + rng.Intn(40); n > 0; n-- {
			b.WriteByte(byte(1 + rng.Intn(127)))
		}
		return b.String(), "ascii"
	}
	var b strings.Builder
	for n := 1 + rng.Intn(10); n > 0; n-- {
		b.WriteString(pick(rng, c08pieces))
	}
	return b.String(), "pieces"
}

type pathBuilder interface {
	BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error)
}

func layoutManager(specs []ExtSpec) (pathBuilder, error) {
	f, err := newFactory(&Cfg{})
	if err != nil {
		return nil, err
	}
	return f.LoadExtensions(NewMemFS(extFiles(specs)), nil)
}

func c08(r *Run) {
	nCfg, nID := r.N(3000, 40000), 60
	r.Parallel(nCfg, func(i int) {
		rng := r.Rng("c08", i)
		spec, label := genLayout(rng)
		specs := []ExtSpec{spec}
		if rng.Intn(2) == 0 {
			specs = append(specs, mgrSpecs(nil, nil)...)
		}
		m, err := layoutManager(specs)
		if err != nil {
			r.Violate("load:"+spec.Name, fmt.Sprintf("valid configuration %v of %s cannot be loaded: %v", spec.Cfg, spec.Name, err), spec.Cfg)
			return
		}
		ids := map[string]string{} // id -> path
		var order []string
		ask := func(b pathBuilder, id, how string) (string, bool) {
			want, werr := layoutRef(spec, id)
			var got string
			err, pan := Guard(func() error {
				var e error
				got, e = b.BuildStorageRootPath(nil, id)
				return e
			})
			r.Count("paths_computed", 1)
			rep := map[string]any{"extension": spec.Cfg, "id": id, "how": how, "got": got, "want": want, "err": fmt.Sprint(err)}
			switch {
			case pan != "":
				r.Violate("panic:"+panicSite(pan), fmt.Sprintf("%s(%v) panics for %q (%s): %s", spec.Name, spec.Cfg, id, how, pan), rep)
				return "", false
			case werr == errSkip:
				return "", false
			case werr == errRefuse:
				r.Count("refusals_expected", 1)
				if err == nil {
					r.Violate("accepted:"+spec.Name, fmt.Sprintf("%s(%v) accepts %q -> %q (%s), the specification refuses it", spec.Name, spec.Cfg, id, got, how), rep)
				}
				return "", false
			case err != nil:
				r.Violate("refused:"+spec.Name, fmt.Sprintf("%s(%v) refuses %q (%s), expected %q: %v", spec.Name, spec.Cfg, id, how, want, err), rep)
				return "", false
			case got != want:
				r.Violate("path:"+spec.Name, fmt.Sprintf("%s(%v): %q -> %q, the specification says %q (%s)", spec.Name, spec.Cfg, id, got, want, how), rep)
				return "", false
			}
			return got, true
		}
		for j := 0; j < nID && !r.Stopped(); j++ {
			id, class := genID(rng)
			if spec.Name == "0006-flat-omit-prefix-storage-layout" || spec.Name == "0007-n-tuple-omit-prefix-storage-layout" {
				if rng.Intn(2) == 0 {
					id = pick(rng, []string{"pre", "", "x/y", "ü"}) + pick(rng, []string{strings.ToUpper(fmt.Sprint(spec.Cfg["delimiter"])), fmt.Sprint(spec.Cfg["delimiter"])}) + strings.ReplaceAll(id, "/", "")
					class += "+delim"
				}
			}
			if id == "" {
				continue
			}
			p, ok := ask(m, id, "first")
			r.Case(label+"|"+class, true)
			if ok {
				ids[id] = p
				order = append(order, id)
			}
			if j%13 == 3 && len(order) > 0 {
				ask(m, pick(rng, order), "repeated later")
			}
			if i%97 == 0 && j < 2 {
				r.Sample(map[string]any{"extension": spec.Cfg, "id": id, "path": p, "defined": ok})
			}
		}
		// fresh instance, other order
		if m2, err := layoutManager(specs); err == nil {
			for j := len(order) - 1; j >= 0; j -= 3 {
				ask(m2, order[j], "fresh instance")
			}
		}
		// concurrently
		if i%4 == 0 && len(order) > 4 {
			var wg sync.WaitGroup
			for g := 0; g < 4; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					for j := range order {
						ask(m, order[(j+g*7)%len(order)], "concurrent")
					}
				}(g)
			}
			wg.Wait()
			r.Count("concurrent_batches", 1)
		}
		// where the mapping is injective no two identifiers share a path
		if strings.HasPrefix(label, "0002") || label == "pathdirect" || strings.HasPrefix(label, "pairtree") || strings.HasPrefix(label, "0003") {
			seen := map[string]string{}
			for id, p := range ids {
				if o, ok := seen[p]; ok && o != id {
					r.Violate("injective:"+spec.Name, fmt.Sprintf("%s(%v): %q and %q share %q", spec.Name, spec.Cfg, o, id, p), []string{o, id})
				}
				seen[p] = id
			}
		}
	})
	// end to end: the object is found exactly at its specified location
	r.Parallel(r.N(300, 2500), func(i int) {
		rng := r.Rng("c08e2e", i)
		spec, label := genLayout(rng)
		c := &Cfg{Ver: pick(rng, []string{"1.0", "1.1"}), Digest: "sha512", Dedup: true, Layout: label, LayoutSpec: spec, Root: []ExtSpec{spec}}
		if rng.Intn(2) == 0 {
			c.Root = append(c.Root, mgrSpecs(nil, nil)...)
		}
		dir := filepath.Join(r.Scratch, fmt.Sprintf("e2e%d", i))
		os.MkdirAll(dir, 0755)
		defer os.RemoveAll(dir)
		e, err := createRoot(dir, c, nil)
		if err != nil {
			r.Violate("init:"+spec.Name, fmt.Sprintf("storage root with %v cannot be created: %v", spec.Cfg, err), spec.Cfg)
			return
		}
		used := map[string]string{}
		for j := 0; j < 5; j++ {
			id, class := genID(rng)
			want, werr := layoutRef(spec, id)
			if werr != nil || !fsSafe(want) || strings.ContainsAny(id, "\x00") {
				continue
			}
			clash := false
			for o := range used {
				if o == want || strings.HasPrefix(o, want+"/") || strings.HasPrefix(want, o+"/") {
					clash = true
				}
			}
			if clash {
				continue
			}
			if j%2 == 1 { // through a reloaded root
				if e, err = openRoot(dir, c, nil); err != nil {
					r.Violate("reload:"+spec.Name, fmt.Sprintf("storage root with %v cannot be loaded again: %v", spec.Cfg, err), spec.Cfg)
					return
				}
			}
			u := &Upd{Msg: "m", User: "u", Addr: "a", Dedup: true, Ops: []Op{{Kind: "folder", Src: map[string][]byte{"f": []byte(id)}}}}
			rep := map[string]any{"extension": spec.Cfg, "id": id, "want": want}
			err, pan := Guard(func() error { return e.update(id, u) })
			if pan != "" || err != nil {
				r.Violate("e2e-create:"+spec.Name, fmt.Sprintf("object %q (%v) expected at %q: %v %s", id, spec.Cfg, want, err, pan), rep)
				continue
			}
			used[want] = id
			objs := findObjects(readTree(dir))
			if fmt.Sprint(objs[id]) != fmt.Sprint([]string{want}) {
				r.Violate("e2e-location:"+spec.Name, fmt.Sprintf("object %q (%v) is at %v, expected %q", id, spec.Cfg, objs[id], want), rep)
			}
			r.Count("objects_located", 1)
			r.Case(label+"|e2e|"+class, true)
		}
		if e, err = openRoot(dir, c, nil); err != nil {
			r.Violate("reload:"+spec.Name, fmt.Sprintf("storage root with %v cannot be loaded again: %v", spec.Cfg, err), spec.Cfg)
			return
		}
		for p, id := range used {
			o, err := e.SR.LoadObjectByID(id)
			if err != nil {
				r.Violate("e2e-load:"+spec.Name, fmt.Sprintf("object %q at %q cannot be loaded: %v", id, p, err), id)
			} else if o.GetID() != id {
				r.Violate("e2e-loadid:"+spec.Name, fmt.Sprintf("LoadObjectByID(%q) gives %q", id, o.GetID()), id)
			}
		}
	})
}

// fsSafe tells whether the path can be used on the scratch filesystem and is a proper path inside of a root
func fsSafe(p string) bool {
	if p == "" || path.Clean(p) != p || strings.HasPrefix(p, "/") || p == "." || p == ".." || strings.HasPrefix(p, "../") || p == "extensions" || strings.HasPrefix(p, "extensions/") || len(p) > 1500 {
		return false
	}
	for _, s := range strings.Split(p, "/") {
		if len(s) > 200 || s == "0=ocfl_1.0" || s == "0=ocfl_1.1" || s == "ocfl_layout.json" || strings.HasPrefix(s, "0=ocfl_object") {
			return false
		}
	}
	return true
}
