package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"strings"
)

func init() {
	register("C05", "exploration", "single alterations (flip, append, truncate, empty, swap, remove, rename, add, sidecar and inventory bytes, fixity-only mismatch) of stored files of valid storage roots written by gocfl histories and by the independent writer; every altered root is distinct and must be reported by the validator, the unaltered root must not", c05)
}

// vroot is a valid storage root on disk
type vroot struct {
	dir  string
	t    Tree
	cfg  *Cfg
	objs []string // object folders
	feat string
}

// validRoots calls fn with valid roots of both sources (histories of gocfl, independent writer)
func validRoots(r *Run, label string, nHist, nForeign int, fn func(rng *rand.Rand, v *vroot)) {
	runHistories(r, label+"h", nHist, histOpt, nil, func(w *World, s *StepRes) {}, func(w *World) {
		t := readTree(w.dir)
		v := &vroot{dir: w.dir, t: t, cfg: w.cfg, feat: w.cfg.Label}
		for _, ps := range findObjects(t) {
			v.objs = append(v.objs, ps...)
		}
		sortStrings(v.objs)
		if len(v.objs) > 0 {
			fn(w.rng, v)
		}
	})
	r.Parallel(nForeign, func(i int) {
		rng := r.Rng(label+"foreign", i)
		t, objs, paths, ver := foreignRoot(rng, 1+rng.Intn(2))
		dir := filepath.Join(r.Scratch, fmt.Sprintf("%sf%d", label, i))
		defer os.RemoveAll(dir)
		if err := writeTree(dir, t); err != nil {
			panic(err)
		}
		var feats []string
		for _, o := range objs {
			feats = append(feats, o.Feat...)
		}
		fn(rng, &vroot{dir: dir, t: t, cfg: &Cfg{Ver: ver, Digest: "sha512"}, objs: paths, feat: fmt.Sprint("foreign ", feats)})
	})
}

// alter is a change of some files: nil = removed
type alter struct {
	class string
	desc  string
	set   map[string][]byte
}

// apply changes the directory and returns a function that restores it
func (v *vroot) apply(a *alter) func() {
	for p := range a.set {
		os.RemoveAll(filepath.Join(v.dir, filepath.FromSlash(strings.TrimSuffix(p, "/"))))
	}
	for p, b := range a.set {
		full := filepath.Join(v.dir, filepath.FromSlash(strings.TrimSuffix(p, "/")))
		if strings.HasSuffix(p, "/") {
			os.MkdirAll(full, 0755)
			continue
		}
		if b == nil {
			continue
		}
		os.MkdirAll(filepath.Dir(full), 0755)
		os.WriteFile(full, b, 0644)
	}
	return func() {
		os.RemoveAll(v.dir)
		writeTree(v.dir, v.t)
	}
}

func (v *vroot) altered(a *alter) Tree {
	t := v.t.clone()
	for p, b := range a.set {
		if b == nil && !strings.HasSuffix(p, "/") {
			delete(t, p)
		} else {
			t[p] = b
		}
	}
	return t
}

// verdict runs the validator on the root (mode 0), on the object folder (1), or by a fresh load of it
func (v *vroot) verdict(mode int, obj string) (errs []VErr, err error, p string) {
	err, p = Guard(func() error {
		e, lerr := openRoot(v.dir, v.cfg, nil)
		if lerr != nil {
			return lerr
		}
		if mode == 0 {
			lerr = e.SR.Check()
		} else {
			lerr = e.SR.CheckObjectByFolder(obj)
		}
		errs, _ = e.statusOf()
		return lerr
	})
	return
}

func isContent(rel string, inv *jinv) bool {
	parts := strings.SplitN(rel, "/", 3)
	if len(parts) < 3 {
		return false
	}
	_, ok := inv.Versions[parts[0]]
	cd := inv.CD
	if cd == "" {
		cd = "content"
	}
	return ok && parts[1] == cd
}

// resign writes an inventory with its sidecar into dir of object obj
func resign(set map[string][]byte, t Tree, obj, dir string, b []byte, alg string) {
	p := path.Join(obj, dir, "inventory.json")
	set[p] = b
	old := string(t[p+"."+alg])
	sep := " "
	if i := strings.IndexAny(old, " \t"); i > 0 {
		sep = strings.TrimSuffix(strings.TrimSpace(old[i:]), "inventory.json")
		if j := strings.Index(old[i:], "inventory.json"); j > 0 {
			sep = old[i : i+j]
		}
	}
	set[p+"."+alg] = []byte(digest(alg, b) + sep + "inventory.json\n")
}

func flipByte(rng *rand.Rand, b []byte) []byte {
	c := append([]byte{}, b...)
	c[rng.Intn(len(c))] ^= byte(1 << rng.Intn(8))
	return c
}

// genAlter produces a random single alteration of object obj; nil if the drawn one is not applicable
func (v *vroot) genAlter(rng *rand.Rand, obj string) *alter {
	ot := v.t.sub(obj)
	inv, err := readInv(ot["inventory.json"])
	if err != nil {
		return nil
	}
	var content, invs, sides []string
	for _, p := range sortedKeys(ot) {
		switch {
		case strings.HasSuffix(p, "/"):
		case isContent(p, inv):
			content = append(content, p)
		case path.Base(p) == "inventory.json" && !strings.HasPrefix(p, "extensions/") && !strings.HasPrefix(p, "logs/"):
			invs = append(invs, p)
		case strings.HasPrefix(path.Base(p), "inventory.json.") && !strings.HasPrefix(p, "extensions/") && !strings.HasPrefix(p, "logs/"):
			sides = append(sides, p)
		}
	}
	a := &alter{set: map[string][]byte{}}
	put := func(p string, b []byte) {
		if b == nil {
			b = []byte{}
		}
		a.set[obj+"/"+p] = b
	}
	del := func(p string) { a.set[obj+"/"+p] = nil }
	kinds := []string{"flip", "append", "truncate", "empty", "swap", "remove", "rename", "add", "add", "invflip", "invappend", "invtruncate", "sideflip", "sideremove", "sidegarbage", "sidecut", "fixity", "fixity", "fixitymix", "oldfixity", "replace"}
	k := pick(rng, kinds)
	a.class = k
	switch k {
	case "flip", "append", "truncate", "empty", "remove", "rename", "replace":
		if len(content) == 0 {
			return nil
		}
		p := pick(rng, content)
		b := ot[p]
		a.desc = k + " " + p
		switch k {
		case "flip":
			if len(b) == 0 {
				return nil
			}
			put(p, flipByte(rng, b))
		case "append":
			put(p, append(append([]byte{}, b...), randBytes(rng, 1+rng.Intn(3))...))
		case "truncate":
			if len(b) < 2 {
				return nil
			}
			put(p, b[:rng.Intn(len(b)-1)+1])
		case "empty":
			if len(b) == 0 {
				return nil
			}
			put(p, nil)
		case "replace":
			// the bytes of another stored file
			q := pick(rng, content)
			if bytes.Equal(ot[q], b) {
				return nil
			}
			put(p, ot[q])
		case "remove":
			del(p)
		case "rename":
			n := p + pick(rng, []string{"~", ".x", "_renamed"})
			if rng.Intn(2) == 0 {
				n = path.Join(path.Dir(p), "moved "+path.Base(p))
			}
			if _, ok := ot[n]; ok {
				return nil
			}
			del(p)
			put(n, b)
		}
	case "swap":
		if len(content) < 2 {
			return nil
		}
		p, q := pick(rng, content), pick(rng, content)
		if bytes.Equal(ot[p], ot[q]) {
			return nil
		}
		put(p, ot[q])
		put(q, ot[p])
		a.desc = "swap " + p + " and " + q
	case "add":
		ver := pick(rng, sortedKeys(inv.Versions))
		cd := inv.CD
		if cd == "" {
			cd = "content"
		}
		base := ver + "/" + cd
		if len(content) > 0 && rng.Intn(2) == 0 {
			base = path.Dir(pick(rng, content))
		}
		n := base + "/" + pick(rng, []string{"unlisted.txt", ".hidden", "inventory.json", "inventory.json.sha512", "0=ocfl_object_1.0", "sub/dir/unlisted", "a b", "é", "content", "extensions/x", "logs/x"})
		for q := range ot {
			if q == n || strings.HasPrefix(q, n+"/") || strings.HasPrefix(n, strings.TrimSuffix(q, "/")+"/") && !strings.HasSuffix(q, "/") {
				return nil
			}
		}
		b := randBytes(rng, rng.Intn(20))
		if len(content) > 0 && rng.Intn(3) == 0 {
			b = ot[pick(rng, content)] // a copy of a listed file
		}
		put(n, b)
		a.desc = "add " + n
	case "invflip", "invappend", "invtruncate":
		p := pick(rng, invs)
		b := ot[p]
		a.desc = k + " " + p
		switch k {
		case "invflip":
			put(p, flipByte(rng, b))
		case "invappend":
			put(p, append(append([]byte{}, b...), pick(rng, []string{"\n", " ", "x", "\x00"})...))
		case "invtruncate":
			if len(b) == 0 {
				return nil
			}
			put(p, b[:rng.Intn(len(b))])
		}
	case "sideflip", "sideremove", "sidegarbage", "sidecut":
		if len(sides) == 0 {
			return nil
		}
		p := pick(rng, sides)
		b := ot[p]
		a.desc = k + " " + p
		switch k {
		case "sideflip":
			i := rng.Intn(64)
			c := append([]byte{}, b...)
			n := "0123456789abcdef"[rng.Intn(16)]
			if strings.EqualFold(string(n), string(c[i])) {
				return nil
			}
			c[i] = n
			put(p, c)
		case "sidecut":
			// a part of the digest
			d, rest, ok := strings.Cut(string(b), " ")
			if !ok || len(d) < 40 {
				return nil
			}
			n := 1 + rng.Intn(len(d))
			if rng.Intn(2) == 0 {
				n &^= 1
			}
			if rng.Intn(3) == 0 {
				d = d[n:]
			} else {
				d = d[:len(d)-n]
			}
			if len(d) == len(b)-len(rest)-1 {
				return nil
			}
			put(p, []byte(d+" "+rest))
		case "sideremove":
			del(p)
		case "sidegarbage":
			put(p, pick(rng, [][]byte{{}, []byte("garbage\n"), b[:20], append([]byte("00"), b...), []byte(strings.Replace(string(b), "inventory.json", "inventory.txt", 1))}))
		}
	case "fixity", "oldfixity", "fixitymix":
		p := "inventory.json"
		if k == "oldfixity" {
			if len(invs) < 3 {
				return nil
			}
			p = pick(rng, invs)
			if p == "inventory.json" || p == inv.Head+"/inventory.json" {
				return nil
			}
		}
		m := map[string]any{}
		if json.Unmarshal(ot[p], &m) != nil {
			return nil
		}
		fix, _ := m["fixity"].(map[string]any)
		var algs []string
		for _, al := range sortedKeys(fix) {
			if newHash(al) != nil {
				algs = append(algs, al)
			}
		}
		if len(algs) == 0 {
			return nil
		}
		al := pick(rng, algs)
		block, _ := fix[al].(map[string]any)
		if len(block) == 0 {
			return nil
		}
		d := pick(rng, sortedKeys(block))
		if k == "fixitymix" {
			// a path goes to the digest of other content
			e := pick(rng, sortedKeys(block))
			from, _ := block[d].([]any)
			to, _ := block[e].([]any)
			if strings.EqualFold(d, e) || len(from) == 0 || len(to) == 0 {
				return nil
			}
			n := rng.Intn(len(from))
			to = append(append([]any{}, to...), from[n])
			if len(from) == 1 {
				delete(block, d)
			} else {
				block[d] = append(append([]any{}, from[:n]...), from[n+1:]...)
			}
			block[e] = to
			b := jsonBytes(m)
			alg, _ := m["digestAlgorithm"].(string)
			a.desc = fmt.Sprintf("%s path with the %s digest of other content in %s", k, al, p)
			resign(a.set, v.t, obj, path.Dir(p), b, alg)
			resign(a.set, v.t, obj, inv.Head, b, alg)
			break
		}
		c := []byte(d)
		i := rng.Intn(len(c))
		n := "0123456789abcdef"[rng.Intn(16)]
		if strings.EqualFold(string(n), string(c[i])) {
			return nil
		}
		c[i] = n
		if _, ok := block[string(c)]; ok {
			return nil
		}
		block[string(c)] = block[d]
		delete(block, d)
		alg, _ := m["digestAlgorithm"].(string)
		b := jsonBytes(m)
		a.desc = fmt.Sprintf("%s %s digest in %s", k, al, p)
		resign(a.set, v.t, obj, path.Dir(p), b, alg)
		if p == "inventory.json" {
			resign(a.set, v.t, obj, inv.Head, b, alg)
		}
	}
	return a
}

func c05(r *Run) {
	r.Assume = []string{"alterations that only change the letter case of a sidecar digest or its white space are not counted as changes", "a version inventory that is removed together with its sidecar is permitted by the specification"}
	per := r.N(14, 30)
	validRoots(r, "c05", r.N(220, 3000), r.N(900, 12000), func(rng *rand.Rand, v *vroot) {
		errs, err, p := v.verdict(0, "")
		if err != nil || p != "" || len(errs) > 0 {
			r.Count("skipped_unaltered_root_not_clean", 1)
			return
		}
		n := 0
		for tries := 0; n < per && tries < 6*per; tries++ {
			obj := pick(rng, v.objs)
			a := v.genAlter(rng, obj)
			if a == nil {
				continue
			}
			n++
			restore := v.apply(a)
			errs, err, p := v.verdict(rng.Intn(2), obj)
			restore()
			r.Case(a.class+v.feat+a.desc, true)
			r.Count("altered_"+a.class, 1)
			rep := map[string]any{"root": v.feat, "object": obj, "alteration": a.desc, "tree": renderTree(v.t.sub(obj))}
			switch {
			case p != "":
				r.Violate("panic:"+panicSite(p), "the validator panics after '"+a.desc+"': "+p, rep)
			case err == nil && len(errs) == 0:
				r.Violate("undetected:"+a.class, fmt.Sprintf("the validator reports no error after '%s' of object folder %s (%s)", a.desc, obj, v.feat), rep)
			default:
				r.Count("detected", 1)
				for _, e := range first(verrStrings(errs), 1) {
					r.Count("by_"+e[:4], 1)
				}
			}
		}
	})
}
