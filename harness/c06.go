package main

// Violations of single OCFL rules planted into valid storage roots. Every altered root is judged by the
// independent oracle first (no violation there: not counted), then the validator of gocfl has to report it.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"path"
	"strings"
	"unicode"
)

func init() {
	register("C06", "exploration", "one planted violation of a mandatory OCFL rule (inventory keys and types, version names, sequence, padding, head, states, manifest, paths, digests, content directory, version inventories, sidecars, declarations, foreign files and directories, storage root declaration) per altered root; the independent oracle confirms the violation, the validator must report it; distinct = violation class x root features x place", c06)
}

// mobj is an object under mutation: set collects the changed files (paths relative to the object)
type mobj struct {
	v    *vroot
	obj  string
	t    Tree // snapshot of the object
	inv  *jinv
	ver  string   // declared version
	dirs []string // version directories with an inventory
	old  []string // dirs without that of the head
	set  map[string][]byte
	desc string
}

func (v *vroot) mutable(obj string) *mobj {
	m := &mobj{v: v, obj: obj, t: v.t.sub(obj), set: map[string][]byte{}}
	inv, err := readInv(m.t["inventory.json"])
	if err != nil {
		return nil
	}
	m.inv = inv
	for p := range m.t {
		if strings.HasPrefix(p, "0=ocfl_object_") && !strings.Contains(p, "/") {
			m.ver = strings.TrimPrefix(p, "0=ocfl_object_")
		}
	}
	for _, n := range sortedKeys(inv.Versions) {
		if _, ok := m.t[n+"/inventory.json"]; ok {
			m.dirs = append(m.dirs, n)
			if n != inv.Head {
				m.old = append(m.old, n)
			}
		}
	}
	return m
}

func (m *mobj) cd() string {
	if m.inv.CD != "" {
		return m.inv.CD
	}
	return "content"
}

func (m *mobj) load(dir string) map[string]any {
	x := map[string]any{}
	if json.Unmarshal(m.t[path.Join(dir, "inventory.json")], &x) != nil {
		return nil
	}
	return x
}

// store writes an inventory and its sidecar
func (m *mobj) store(dir string, x map[string]any) {
	m.storeBytes(dir, jsonBytes(x))
}

func (m *mobj) storeBytes(dir string, b []byte) {
	alg := "sha512"
	y := map[string]any{}
	json.Unmarshal(m.t[path.Join(dir, "inventory.json")], &y)
	if s, ok := y["digestAlgorithm"].(string); ok {
		alg = s
	}
	p := path.Join(dir, "inventory.json")
	m.set[p] = b
	m.set[p+"."+alg] = []byte(digest(alg, b) + " inventory.json\n")
}

// root applies fn to the root inventory and its copy in the head version
func (m *mobj) root(fn func(x map[string]any) bool) bool {
	x := m.load("")
	if x == nil || !fn(x) {
		return false
	}
	m.store("", x)
	if _, ok := m.t[m.inv.Head+"/inventory.json"]; ok {
		m.store(m.inv.Head, x)
	}
	return true
}

// all applies fn to all inventories of the object
func (m *mobj) all(fn func(x map[string]any) bool) bool {
	if !m.root(fn) {
		return false
	}
	for _, d := range m.old {
		if x := m.load(d); x != nil && fn(x) {
			m.store(d, x)
		}
	}
	return true
}

// one applies fn to the inventory of one older version
func (m *mobj) one(rng *rand.Rand, fn func(x map[string]any) bool) bool {
	if len(m.old) == 0 {
		return false
	}
	d := pick(rng, m.old)
	x := m.load(d)
	if x == nil || !fn(x) {
		return false
	}
	m.store(d, x)
	m.desc += " in " + d
	return true
}

func (m *mobj) put(p string, b []byte) {
	if b == nil {
		b = []byte{}
	}
	m.set[p] = b
}
func (m *mobj) del(p string) { m.set[p] = nil }

func asMap(v any) map[string]any { x, _ := v.(map[string]any); return x }

func versionsOf(x map[string]any) map[string]any { return asMap(x["versions"]) }

func pickVer(rng *rand.Rand, x map[string]any) (string, map[string]any) {
	vs := versionsOf(x)
	if len(vs) == 0 {
		return "", nil
	}
	n := pick(rng, sortedKeys(vs))
	return n, asMap(vs[n])
}

// somePath picks a digest and path of a digest map
func somePath(rng *rand.Rand, x map[string]any) (string, string) {
	if len(x) == 0 {
		return "", ""
	}
	d := pick(rng, sortedKeys(x))
	l, _ := x[d].([]any)
	if len(l) == 0 {
		return "", ""
	}
	s, _ := pick(rng, l).(string)
	return d, s
}

func addPath(x map[string]any, d, p string) {
	l, _ := x[d].([]any)
	x[d] = append(append([]any{}, l...), p)
}

func dropPath(x map[string]any, d, p string) {
	l, _ := x[d].([]any)
	var n []any
	for _, q := range l {
		if q != any(p) {
			n = append(n, q)
		}
	}
	if len(n) == 0 {
		delete(x, d)
	} else {
		x[d] = n
	}
}

func badVariant(rng *rand.Rand, p string) string {
	return pick(rng, []string{"/" + p, p + "/", "./" + p, "../" + p, p + "/..", p + "/.", "a//" + p, "", ".", "..", "a/../" + p, p + "//x", "/", "a/./" + p, "//" + p})
}

func otherDigest(rng *rand.Rand, alg string) string { return digest(alg, randBytes(rng, 16)) }

type mutator struct {
	name string
	fn   func(rng *rand.Rand, m *mobj) bool
}

var mutators []mutator

func mut(name string, fn func(rng *rand.Rand, m *mobj) bool) {
	mutators = append(mutators, mutator{name, fn})
}

// inventory mutation in the root (and head copy) or in all inventories
func mutInv(name string, fn func(rng *rand.Rand, m *mobj, x map[string]any) bool) {
	mut(name, func(rng *rand.Rand, m *mobj) bool {
		seed := rng.Int63()
		f := func(x map[string]any) bool { return fn(rand.New(rand.NewSource(seed)), m, x) }
		if rng.Intn(2) == 0 {
			return m.root(f)
		}
		m.desc += " everywhere"
		return m.all(f)
	})
}

// mutation of one version block, in all inventories that have it or in the root only
func mutVersion(name string, fn func(rng *rand.Rand, m *mobj, v map[string]any, x map[string]any) bool) {
	mut(name, func(rng *rand.Rand, m *mobj) bool {
		seed := rng.Int63()
		vn := pick(rng, sortedKeys(m.inv.Versions))
		m.desc += " of " + vn
		f := func(x map[string]any) bool {
			v := asMap(versionsOf(x)[vn])
			return v != nil && fn(rand.New(rand.NewSource(seed)), m, v, x)
		}
		if rng.Intn(3) == 0 {
			return m.root(f)
		}
		return m.all(f)
	})
}

func init() {
	for _, k := range []string{"id", "type", "digestAlgorithm", "head", "manifest", "versions"} {
		k := k
		mutInv("drop-"+k, func(rng *rand.Rand, m *mobj, x map[string]any) bool { delete(x, k); return true })
		mutInv("null-"+k, func(rng *rand.Rand, m *mobj, x map[string]any) bool { x[k] = nil; return true })
		mutInv("wrongtype-"+k, func(rng *rand.Rand, m *mobj, x map[string]any) bool {
			x[k] = pick(rng, []any{5, true, []any{}, []any{"a"}, 1.5})
			return true
		})
	}
	mutInv("empty-id", func(rng *rand.Rand, m *mobj, x map[string]any) bool { x["id"] = ""; return true })
	mutInv("empty-type", func(rng *rand.Rand, m *mobj, x map[string]any) bool { x["type"] = ""; return true })
	mutInv("other-type", func(rng *rand.Rand, m *mobj, x map[string]any) bool {
		x["type"] = pick(rng, []string{"https://ocfl.io/1.0/spec/#inventory", "https://ocfl.io/1.1/spec/#inventory", "https://ocfl.io/1.1/spec/", "https://ocfl.io/2.0/spec/#inventory", "inventory", "http://ocfl.io/1.0/spec/#inventory"})
		return x["type"] != "https://ocfl.io/"+m.ver+"/spec/#inventory"
	})
	mut("bad-digestAlgorithm", func(rng *rand.Rand, m *mobj) bool {
		// with a matching sidecar where the algorithm can be computed
		alg := pick(rng, []string{"md5", "sha1", "blake2b-512", "sha384", "foo", "", "SHA512"})
		return m.root(func(x map[string]any) bool {
			x["digestAlgorithm"] = alg
			if newHash(alg) != nil && rng.Intn(2) == 0 {
				b := jsonBytes(x)
				m.put("inventory.json."+alg, []byte(digest(alg, b)+" inventory.json\n"))
				m.put(m.inv.Head+"/inventory.json."+alg, []byte(digest(alg, b)+" inventory.json\n"))
			}
			return true
		})
	})
	// a whole object with an algorithm that is not permitted
	mut("md5-object", func(rng *rand.Rand, m *mobj) bool {
		if len(m.old) > 0 || len(m.inv.Versions) > 1 {
			return false
		}
		x := m.load("")
		alg := pick(rng, []string{"md5", "sha1", "blake2b-256"})
		man := asMap(x["manifest"])
		conv := map[string]string{}
		nm := map[string]any{}
		for d, l := range man {
			for _, p := range l.([]any) {
				nd := digest(alg, m.t[p.(string)])
				conv[strings.ToLower(d)] = nd
				addPath(nm, nd, p.(string))
			}
		}
		ns := map[string]any{}
		_, v := pickVer(rng, x)
		for d, l := range asMap(v["state"]) {
			for _, p := range l.([]any) {
				addPath(ns, conv[strings.ToLower(d)], p.(string))
			}
		}
		v["state"] = ns
		x["manifest"] = nm
		x["digestAlgorithm"] = alg
		b := jsonBytes(x)
		for _, dir := range []string{"", m.inv.Head + "/"} {
			if _, ok := m.t[dir+"inventory.json"]; !ok {
				continue
			}
			m.del(dir + "inventory.json." + m.inv.Digest)
			m.put(dir+"inventory.json", b)
			m.put(dir+"inventory.json."+alg, []byte(digest(alg, b)+" inventory.json\n"))
		}
		return true
	})
	mut("head-other", func(rng *rand.Rand, m *mobj) bool {
		return m.root(func(x map[string]any) bool {
			c := []any{"v99", "", "head", "1", 1, "V1", m.inv.Head + "0", "v"}
			for n := range m.inv.Versions {
				if n != m.inv.Head {
					c = append(c, n, n, n)
				}
			}
			h := pick(rng, c)
			x["head"] = h
			m.desc = fmt.Sprintf("head = %v", h)
			return h != any(m.inv.Head)
		})
	})
	mut("version-gap", func(rng *rand.Rand, m *mobj) bool {
		// a version beyond the next one that repeats the head state
		return m.root(func(x map[string]any) bool {
			vs := versionsOf(x)
			n := m.vnum(len(vs) + 2 + rng.Intn(5))
			if _, ok := vs[n]; ok {
				return false
			}
			vs[n] = vs[m.inv.Head]
			if rng.Intn(2) == 0 {
				x["head"] = n
			}
			m.desc += " " + n
			return true
		})
	})
	mut("version-without-directory", func(rng *rand.Rand, m *mobj) bool {
		x := m.load("")
		vs := versionsOf(x)
		n := m.vnum(len(vs) + 1)
		if _, ok := vs[n]; ok {
			return false
		}
		vs[n] = vs[m.inv.Head]
		x["head"] = n
		m.store("", x)
		return true
	})
	mut("gap-with-directory", func(rng *rand.Rand, m *mobj) bool {
		x := m.load("")
		vs := versionsOf(x)
		n := m.vnum(len(vs) + 2)
		vs[n] = vs[m.inv.Head]
		x["head"] = n
		m.store("", x)
		m.put(n+"/inventory.json", m.set["inventory.json"])
		m.put(n+"/inventory.json."+m.inv.Digest, m.set["inventory.json."+m.inv.Digest])
		return true
	})
	mut("bad-version-name", func(rng *rand.Rand, m *mobj) bool {
		x := m.load("")
		vs := versionsOf(x)
		k := len(vs) + 1
		n := pick(rng, []string{fmt.Sprint(k), "vA", "v0", "v00", "v", "", fmt.Sprintf("V%d", k), fmt.Sprintf("v %d", k), fmt.Sprintf("v%d.0", k), "v-1", fmt.Sprintf("v+%d", k), fmt.Sprintf("version%d", k), fmt.Sprintf("v%dx", k), fmt.Sprintf("0v%d", k), fmt.Sprintf("vv%d", k)})
		if _, ok := vs[n]; ok {
			return false
		}
		vs[n] = vs[m.inv.Head]
		m.desc += fmt.Sprintf(" %q", n)
		if rng.Intn(2) == 0 {
			x["head"] = n
		}
		m.store("", x)
		if d := strings.TrimSpace(n); d == n && d != "" && rng.Intn(2) == 0 {
			m.put(n+"/inventory.json", m.set["inventory.json"])
			m.put(n+"/inventory.json."+m.inv.Digest, m.set["inventory.json."+m.inv.Digest])
		} else if _, ok := m.t[m.inv.Head+"/inventory.json"]; ok {
			m.store(m.inv.Head, x)
		}
		return true
	})
	mut("mixed-padding", func(rng *rand.Rand, m *mobj) bool {
		x := m.load("")
		vs := versionsOf(x)
		k := len(vs) + 1
		if k > 9 {
			return false
		}
		n := pick(rng, []string{fmt.Sprintf("v%d", k), fmt.Sprintf("v0%d", k), fmt.Sprintf("v00%d", k), fmt.Sprintf("v0000%d", k)})
		if m.vnum(k) == n {
			return false
		}
		vs[n] = vs[m.inv.Head]
		x["head"] = n
		m.store("", x)
		m.put(n+"/inventory.json", m.set["inventory.json"])
		m.put(n+"/inventory.json."+m.inv.Digest, m.set["inventory.json."+m.inv.Digest])
		m.desc += " " + n
		return true
	})
	mut("same-version-twice", func(rng *rand.Rand, m *mobj) bool {
		return m.root(func(x map[string]any) bool {
			vs := versionsOf(x)
			n := "v0" + strings.TrimPrefix(m.inv.Head, "v")
			vs[n] = vs[m.inv.Head]
			return true
		})
	})
	mut("no-versions", func(rng *rand.Rand, m *mobj) bool {
		return m.root(func(x map[string]any) bool { x["versions"] = map[string]any{}; return true })
	})
	mut("version-removed", func(rng *rand.Rand, m *mobj) bool {
		return m.root(func(x map[string]any) bool {
			n, _ := pickVer(rng, x)
			delete(versionsOf(x), n)
			m.desc += " " + n
			return true
		})
	})
	mut("version-not-object", func(rng *rand.Rand, m *mobj) bool {
		vn := pick(rng, sortedKeys(m.inv.Versions))
		val := pick(rng, []any{nil, map[string]any{}, []any{}, "x", 1})
		return m.all(func(x map[string]any) bool {
			if _, ok := versionsOf(x)[vn]; !ok {
				return false
			}
			versionsOf(x)[vn] = val
			return true
		})
	})
	mutVersion("drop-created", func(rng *rand.Rand, m *mobj, v, x map[string]any) bool { delete(v, "created"); return true })
	mutVersion("bad-created", func(rng *rand.Rand, m *mobj, v, x map[string]any) bool {
		v["created"] = pick(rng, []any{"2020-01-01T10:00:00", "2020-01-01", "yesterday", "", 5, nil, "2020-13-01T10:00:00Z", "2020-01-01 10:00:00Z", "20200101T100000Z", []any{}, "2020-01-01T10:00Z"})
		m.desc += fmt.Sprintf(" %v", v["created"])
		return true
	})
	mutVersion("drop-state", func(rng *rand.Rand, m *mobj, v, x map[string]any) bool { delete(v, "state"); return true })
	mutVersion("bad-state", func(rng *rand.Rand, m *mobj, v, x map[string]any) bool {
		v["state"] = pick(rng, []any{nil, []any{}, "x", 5, map[string]any{otherDigest(rng, m.inv.Digest): "a"}, map[string]any{otherDigest(rng, m.inv.Digest): []any{1}}})
		return true
	})
	mutVersion("bad-user", func(rng *rand.Rand, m *mobj, v, x map[string]any) bool {
		v["user"] = pick(rng, []any{map[string]any{}, map[string]any{"address": "mailto:a@example.org"}, "somebody", 5, []any{}, map[string]any{"name": 5}, map[string]any{"name": nil}, map[string]any{"name": "a", "address": 5}, map[string]any{"name": []any{"a"}}})
		m.desc += fmt.Sprintf(" %v", v["user"])
		return true
	})
	mutVersion("bad-message", func(rng *rand.Rand, m *mobj, v, x map[string]any) bool {
		v["message"] = pick(rng, []any{5, []any{"a"}, map[string]any{"a": "b"}, true})
		return true
	})
	mutVersion("state-without-manifest", func(rng *rand.Rand, m *mobj, v, x map[string]any) bool {
		st := asMap(v["state"])
		if st == nil {
			return false
		}
		st[otherDigest(rng, m.inv.Digest)] = []any{"no content"}
		return true
	})
	mutVersion("state-bad-path", func(rng *rand.Rand, m *mobj, v, x map[string]any) bool {
		st := asMap(v["state"])
		d, p := somePath(rng, st)
		if d == "" {
			return false
		}
		q := badVariant(rng, p)
		dropPath(st, d, p)
		addPath(st, d, q)
		m.desc += fmt.Sprintf(" %q", q)
		return true
	})
	mutVersion("state-path-twice", func(rng *rand.Rand, m *mobj, v, x map[string]any) bool {
		st := asMap(v["state"])
		d, p := somePath(rng, st)
		if d == "" {
			return false
		}
		e := d
		if rng.Intn(3) > 0 {
			e, _ = somePath(rng, asMap(x["manifest"]))
		}
		addPath(st, e, p)
		return true
	})
	mutVersion("state-conflict", func(rng *rand.Rand, m *mobj, v, x map[string]any) bool {
		st := asMap(v["state"])
		d, p := somePath(rng, st)
		e, _ := somePath(rng, asMap(x["manifest"]))
		if d == "" || e == "" {
			return false
		}
		if i := strings.LastIndex(p, "/"); i > 0 && rng.Intn(2) == 0 {
			addPath(st, e, p[:i])
			m.desc += " file " + p[:i]
		} else {
			q := p + pick(rng, []string{"/x", "/a/b", "/-", "/ "})
			addPath(st, e, q)
			// unrelated paths that sort between a path and its children
			for _, n := range []string{p + "-x", p + " y", p + "!"} {
				if rng.Intn(2) == 0 {
					addPath(st, e, n)
				}
			}
			m.desc += " below " + q
		}
		return true
	})
	mutInv("manifest-unused", func(rng *rand.Rand, m *mobj, x map[string]any) bool {
		// content that no version refers to
		b := []byte("unused content")
		p := m.inv.Head + "/" + m.cd() + "/unused-content.bin"
		m.put(p, b)
		if strings.ToLower(asString(x["head"])) != m.inv.Head {
			return false
		}
		addPath(asMap(x["manifest"]), digest(m.inv.Digest, b), p)
		return true
	})
	mut("manifest-entry-removed", func(rng *rand.Rand, m *mobj) bool {
		return m.root(func(x map[string]any) bool {
			man := asMap(x["manifest"])
			d, _ := somePath(rng, man)
			delete(man, d)
			return d != ""
		})
	})
	mutInv("manifest-missing-file", func(rng *rand.Rand, m *mobj, x map[string]any) bool {
		man := asMap(x["manifest"])
		d, p := somePath(rng, man)
		if d == "" {
			return false
		}
		addPath(man, d, p+"-missing")
		return true
	})
	mutInv("manifest-bad-path", func(rng *rand.Rand, m *mobj, x map[string]any) bool {
		man := asMap(x["manifest"])
		d, p := somePath(rng, man)
		if d == "" {
			return false
		}
		q := badVariant(rng, p)
		if rng.Intn(2) == 0 {
			i := strings.Index(p, "/")
			q = p[:i] + "/" + pick(rng, []string{"./", "/", "../" + p[:i] + "/"}) + p[i+1:] // the same file on disk
		}
		if rng.Intn(2) == 0 {
			dropPath(man, d, p)
		}
		addPath(man, d, q)
		m.desc += fmt.Sprintf(" %q", q)
		return true
	})
	mutInv("manifest-path-twice", func(rng *rand.Rand, m *mobj, x map[string]any) bool {
		man := asMap(x["manifest"])
		d, p := somePath(rng, man)
		e, _ := somePath(rng, man)
		if d == "" {
			return false
		}
		if rng.Intn(2) == 0 {
			e = d
		}
		addPath(man, e, p)
		return true
	})
	mutInv("manifest-conflict", func(rng *rand.Rand, m *mobj, x map[string]any) bool {
		man := asMap(x["manifest"])
		d, p := somePath(rng, man)
		if d == "" {
			return false
		}
		addPath(man, d, p+"/x")
		return true
	})
	mut("manifest-case-duplicate", func(rng *rand.Rand, m *mobj) bool {
		x := m.load("")
		d, p := somePath(rng, asMap(x["manifest"]))
		if d == "" || strings.ToUpper(d) == strings.ToLower(d) {
			return false
		}
		n := m.inv.Head + "/" + m.cd() + "/case-duplicate.bin"
		m.put(n, m.t[p])
		return m.root(func(x map[string]any) bool {
			e := strings.ToUpper(d)
			if e == d {
				e = strings.ToLower(d)
			}
			asMap(x["manifest"])[e] = []any{n}
			if rng.Intn(2) == 0 {
				addPath(asMap(asMap(versionsOf(x)[m.inv.Head])["state"]), e, "case-duplicate.bin")
			}
			return true
		})
	})
	mut("fixity-case-duplicate", func(rng *rand.Rand, m *mobj) bool {
		x := m.load("")
		d, p := somePath(rng, asMap(x["manifest"]))
		if d == "" {
			return false
		}
		alg := pick(rng, []string{"md5", "sha1", "sha256"})
		if alg == m.inv.Digest {
			return false
		}
		n := m.inv.Head + "/" + m.cd() + "/case-duplicate.bin"
		m.put(n, m.t[p])
		f := digest(alg, m.t[p])
		if strings.ToUpper(f) == f {
			return false
		}
		return m.root(func(x map[string]any) bool {
			addPath(asMap(x["manifest"]), d, n)
			fix := asMap(x["fixity"])
			if fix == nil {
				fix = map[string]any{}
				x["fixity"] = fix
			}
			fix[alg] = map[string]any{f: []any{p}, strings.ToUpper(f): []any{n}}
			return true
		})
	})
	mutInv("fixity-bad-path", func(rng *rand.Rand, m *mobj, x map[string]any) bool {
		fix := asMap(x["fixity"])
		if fix == nil {
			fix = map[string]any{}
			x["fixity"] = fix
		}
		d, p := somePath(rng, asMap(x["manifest"]))
		if d == "" {
			return false
		}
		f := digest("md5", m.t[p])
		fix["md5"] = map[string]any{f: []any{badVariant(rng, p)}}
		return true
	})
	mutInv("fixity-wrong", func(rng *rand.Rand, m *mobj, x map[string]any) bool {
		fix := asMap(x["fixity"])
		if fix == nil {
			fix = map[string]any{}
			x["fixity"] = fix
		}
		d, p := somePath(rng, asMap(x["manifest"]))
		if d == "" {
			return false
		}
		fix["md5"] = map[string]any{otherDigest(rng, "md5"): []any{p}}
		return true
	})
	mutInv("fixity-wrong-entry", func(rng *rand.Rand, m *mobj, x map[string]any) bool {
		// a path in the list of the digest of other content
		fix := asMap(x["fixity"])
		if fix == nil {
			fix = map[string]any{}
			x["fixity"] = fix
		}
		man := asMap(x["manifest"])
		d, p := somePath(rng, man)
		e, q := somePath(rng, man)
		if d == "" || e == "" || m.t[p] == nil || m.t[q] == nil || bytes.Equal(m.t[p], m.t[q]) {
			return false
		}
		l := []any{q}
		ps, _ := man[d].([]any)
		for _, a := range ps {
			l = append(l, a)
		}
		rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		alg := pick(rng, []string{"md5", "sha1", "sha256"})
		fix[alg] = map[string]any{digest(alg, m.t[p]): l}
		return true
	})
	mutInv("fixity-type", func(rng *rand.Rand, m *mobj, x map[string]any) bool {
		x["fixity"] = pick(rng, []any{[]any{}, "x", 5, map[string]any{"md5": []any{}}, map[string]any{"md5": "x"}, map[string]any{"md5": map[string]any{otherDigest(rng, "md5"): "x"}}})
		return true
	})
	mut("nested-contentDirectory", func(rng *rand.Rand, m *mobj) bool {
		// everything else fits
		cd, n := m.cd(), pick(rng, []string{"a/b", "content/x", "x/../y", "."})
		re := func(p string) string {
			v, rest, _ := strings.Cut(p, "/")
			if strings.HasPrefix(rest, cd+"/") {
				return path.Join(v, n, rest[len(cd)+1:])
			}
			return p
		}
		moved := 0
		for _, p := range sortedKeys(m.t) {
			if q := re(p); q != p {
				m.del(p)
				if !strings.HasSuffix(p, "/") {
					m.put(q, m.t[p])
					moved++
				}
			}
		}
		return moved > 0 && m.all(func(x map[string]any) bool {
			x["contentDirectory"] = n
			maps := []map[string]any{asMap(x["manifest"])}
			for _, b := range asMap(x["fixity"]) {
				maps = append(maps, asMap(b))
			}
			for _, b := range maps {
				for d, l := range b {
					var ps []any
					ll, _ := l.([]any)
					for _, a := range ll {
						q, _ := a.(string)
						ps = append(ps, re(q))
					}
					b[d] = ps
				}
			}
			return true
		})
	})
	mutInv("bad-contentDirectory", func(rng *rand.Rand, m *mobj, x map[string]any) bool {
		x["contentDirectory"] = pick(rng, []any{".", "..", "a/b", "/", "content/", "/content", 5, []any{"content"}})
		return true
	})
	mut("contentDirectory-with-slash", func(rng *rand.Rand, m *mobj) bool {
		// all content moved, so that only the name is wrong
		n := m.cd() + "/sub"
		repl := func(x map[string]any) {
			for d, l := range x {
				var nl []any
				for _, p := range l.([]any) {
					parts := strings.SplitN(p.(string), "/", 3)
					nl = append(nl, parts[0]+"/"+n+"/"+parts[2])
				}
				x[d] = nl
			}
		}
		for p, b := range m.t {
			if isContent(p, m.inv) {
				parts := strings.SplitN(p, "/", 3)
				m.del(p)
				defer func() { m.put(parts[0]+"/"+n+"/"+parts[2], b) }()
			}
		}
		return m.all(func(x map[string]any) bool {
			x["contentDirectory"] = n
			repl(asMap(x["manifest"]))
			for _, b := range asMap(x["fixity"]) {
				repl(asMap(b))
			}
			return true
		})
	})
	mut("contentDirectory-changed", func(rng *rand.Rand, m *mobj) bool {
		return m.root(func(x map[string]any) bool { x["contentDirectory"] = m.cd() + "x"; return true })
	})
	// version inventories
	mut("old-id", func(rng *rand.Rand, m *mobj) bool {
		return m.one(rng, func(x map[string]any) bool {
			id := asString(x["id"])
			c := []string{id + "x", id + " ", id + "/", "x" + id, "./" + id, swapCase(id), swapCase(id), id[:len(id)-1]}
			n := pick(rng, c)
			if n == id || n == "" {
				n = id + "x"
			}
			x["id"] = n
			m.desc = fmt.Sprintf("id = %q", n)
			return true
		})
	})
	mut("old-head", func(rng *rand.Rand, m *mobj) bool {
		return m.one(rng, func(x map[string]any) bool { x["head"] = m.inv.Head; return true })
	})
	mut("old-contentDirectory", func(rng *rand.Rand, m *mobj) bool {
		return m.one(rng, func(x map[string]any) bool { x["contentDirectory"] = m.cd() + "x"; return true })
	})
	mut("old-is-newer-copy", func(rng *rand.Rand, m *mobj) bool {
		// the inventory of a later version in an earlier directory
		if len(m.old) == 0 {
			return false
		}
		m.storeBytes(pick(rng, m.old), m.t["inventory.json"])
		return true
	})
	mut("old-state-renamed", func(rng *rand.Rand, m *mobj) bool {
		return m.one(rng, func(x map[string]any) bool {
			_, v := pickVer(rng, x)
			st := asMap(v["state"])
			d, p := somePath(rng, st)
			if d == "" {
				return false
			}
			dropPath(st, d, p)
			addPath(st, d, p+"-renamed")
			return true
		})
	})
	mut("old-state-swapped", func(rng *rand.Rand, m *mobj) bool {
		return m.one(rng, func(x map[string]any) bool {
			_, v := pickVer(rng, x)
			st := asMap(v["state"])
			d, _ := somePath(rng, st)
			e, _ := somePath(rng, st)
			if d == e || d == "" {
				return false
			}
			st[d], st[e] = st[e], st[d]
			return true
		})
	})
	mut("old-state-missing", func(rng *rand.Rand, m *mobj) bool {
		return m.one(rng, func(x map[string]any) bool {
			_, v := pickVer(rng, x)
			st := asMap(v["state"])
			d, p := somePath(rng, st)
			if d == "" {
				return false
			}
			dropPath(st, d, p)
			return true
		})
	})
	mut("old-state-added", func(rng *rand.Rand, m *mobj) bool {
		return m.one(rng, func(x map[string]any) bool {
			_, v := pickVer(rng, x)
			d, _ := somePath(rng, asMap(x["manifest"]))
			if d == "" {
				return false
			}
			addPath(asMap(v["state"]), d, "added to an old state")
			return true
		})
	})
	mut("root-state-changed", func(rng *rand.Rand, m *mobj) bool {
		// the root rewrites the history of an older version
		return m.root(func(x map[string]any) bool {
			n, v := pickVer(rng, x)
			if n == m.inv.Head {
				return false
			}
			st := asMap(v["state"])
			d, p := somePath(rng, st)
			if d == "" {
				return false
			}
			dropPath(st, d, p)
			addPath(st, d, p+"-renamed")
			return true
		})
	})
	mut("old-type-newer", func(rng *rand.Rand, m *mobj) bool {
		if m.ver != "1.0" {
			return false
		}
		return m.one(rng, func(x map[string]any) bool { x["type"] = "https://ocfl.io/1.1/spec/#inventory"; return true })
	})
	mut("old-manifest-incomplete", func(rng *rand.Rand, m *mobj) bool {
		return m.one(rng, func(x map[string]any) bool {
			man := asMap(x["manifest"])
			for _, d := range sortedKeys(man) {
				if l, _ := man[d].([]any); len(l) > 1 {
					man[d] = l[1:]
					return true
				}
			}
			return false
		})
	})
	mut("old-drop", func(rng *rand.Rand, m *mobj) bool {
		return m.one(rng, func(x map[string]any) bool {
			delete(x, pick(rng, []string{"id", "head", "type", "digestAlgorithm", "manifest", "versions"}))
			return true
		})
	})
	mut("head-copy-differs", func(rng *rand.Rand, m *mobj) bool {
		if _, ok := m.t[m.inv.Head+"/inventory.json"]; !ok {
			return false
		}
		x := m.load("")
		v := asMap(versionsOf(x)[m.inv.Head])
		switch rng.Intn(5) {
		case 0:
			v["message"] = "another message"
		case 1:
			v["created"] = "2001-01-01T01:01:01Z"
		case 2:
			v["user"] = map[string]any{"name": "someone else", "address": "mailto:x@example.org"}
		case 3:
			b := append(append([]byte{}, m.t["inventory.json"]...), '\n')
			m.storeBytes(m.inv.Head, b)
			return true
		case 4:
			x["fixity"] = map[string]any{}
			if string(jsonBytes(x)) == string(m.t["inventory.json"]) {
				return false
			}
		}
		dir := ""
		if rng.Intn(2) == 0 {
			dir = m.inv.Head
		}
		m.store(dir, x)
		return true
	})
	// sidecars
	mut("sidecar-missing", func(rng *rand.Rand, m *mobj) bool {
		var s []string
		for p := range m.t {
			if strings.HasPrefix(path.Base(p), "inventory.json.") && !isContent(p, m.inv) && !strings.HasPrefix(p, "extensions/") && !strings.HasPrefix(p, "logs/") {
				s = append(s, p)
			}
		}
		sortStrings(s)
		p := pick(rng, s)
		m.del(p)
		m.desc += " " + p
		if rng.Intn(2) == 0 {
			q := strings.TrimSuffix(p, path.Ext(p)) + "." + pick(rng, []string{"md5", "sha256", "sha512", "txt"})
			if q == p {
				return false
			}
			inv := m.t[strings.TrimSuffix(p, path.Ext(p))]
			alg := strings.TrimPrefix(path.Ext(q), ".")
			if newHash(alg) == nil {
				alg = "md5"
			}
			m.put(q, []byte(digest(alg, inv)+" inventory.json\n"))
		}
		return true
	})
	mut("sidecar-format", func(rng *rand.Rand, m *mobj) bool {
		p := "inventory.json." + m.inv.Digest
		if rng.Intn(3) == 0 && len(m.dirs) > 0 {
			dir := pick(rng, m.dirs)
			x := m.load(dir)
			p = dir + "/inventory.json." + asString(x["digestAlgorithm"])
		}
		old := string(m.t[p])
		d := strings.Fields(old)[0]
		m.put(p, []byte(pick(rng, []string{d, d + "\n", d + " inventory.txt\n", " inventory.json\n", "", d + "inventory.json\n", d + " ./inventory.json\n", d + " inventory_json\n", d[:len(d)-2] + " inventory.json\n", "x" + d + " inventory.json\n", d + " inventory.json.bak\n", d + " \ninventory.jsonx\n", strings.Repeat("0", len(d)) + " inventory.json\n"})))
		return true
	})
	// tree
	mut("declaration", func(rng *rand.Rand, m *mobj) bool {
		n := "0=ocfl_object_" + m.ver
		switch k := rng.Intn(8); k {
		case 0:
			m.del(n)
		case 1:
			m.put(n, pick(rng, [][]byte{{}, []byte("ocfl_object_" + m.ver), []byte("ocfl_object_9.9\n"), []byte("ocfl_" + m.ver + "\n"), []byte("ocfl_object_" + m.ver + "\n\n"), []byte(" ocfl_object_" + m.ver + "\n"), []byte("OCFL_OBJECT_" + m.ver + "\n"), []byte("ocfl_object_" + m.ver + "x\n")}))
		case 2:
			o := map[string]string{"1.0": "1.1", "1.1": "1.0"}[m.ver]
			m.put("0=ocfl_object_"+o, []byte("ocfl_object_"+o+"\n"))
		case 3:
			m.del(n)
			o := pick(rng, []string{"9.9", "0.9", "1.00", "1.2", "11.0"})
			m.put("0=ocfl_object_"+o, []byte("ocfl_object_"+o+"\n"))
		case 4:
			m.del(n)
			o := map[string]string{"1.0": "1.1", "1.1": "1.0"}[m.ver]
			m.put("0=ocfl_object_"+o, []byte("ocfl_object_"+o+"\n"))
		case 5:
			m.put("0=ocfl_object_"+m.ver+".bak", m.t[n])
		case 6:
			m.del(n)
			q := pick(rng, []string{"0=ocfl_object_" + m.ver + ".txt", "x0=ocfl_object_" + m.ver, "0=ocfl_object", "0=ocfl_object_1", "1=ocfl_object_" + m.ver, "0=ocfl_object_v" + m.ver})
			m.put(q, m.t[n])
			m.desc += " " + q
		case 7:
			m.put("0=ocfl_"+m.ver, []byte("ocfl_"+m.ver+"\n"))
		}
		return true
	})
	mut("foreign-root-file", func(rng *rand.Rand, m *mobj) bool {
		n := pick(rng, []string{"README.txt", ".DS_Store", "inventory.json.md5", "inventory.json.bak", "Inventory.json", "inventory.jsonx", "inventoryXjson", "inventory.json.sha1", "inventory.json.sha384", "v99", "content", "fixity", "inventory.json.tmp", "inventory.json.sha512", "inventory.json.sha256", "inventory.json.SHA512", "v1.txt", "0=x", "a b"})
		if _, ok := m.t[n]; ok {
			return false
		}
		if _, ok := m.t[n+"/"]; ok {
			return false
		}
		m.put(n, []byte("foreign"))
		m.desc += " " + n
		return true
	})
	mut("foreign-root-dir", func(rng *rand.Rand, m *mobj) bool {
		n := pick(rng, []string{"content", "v99", "v0", "V1", "extension", "extensionsX", "tmp", "v1.bak", ".git", "logsx", "log", m.vnum(len(m.inv.Versions) + 1), "vv1", "v-1", "v" + strings.TrimLeft(m.inv.Head, "v0") + "x"})
		if _, ok := m.t[n+"/"]; ok {
			return false
		}
		for p := range m.t {
			if strings.HasPrefix(p, n+"/") {
				return false
			}
		}
		switch rng.Intn(3) {
		case 0:
			m.set[n+"/"] = []byte{}
		case 1:
			m.put(n+"/file", []byte("foreign"))
		case 2:
			m.put(n+"/inventory.json", m.t["inventory.json"])
			m.put(n+"/inventory.json."+m.inv.Digest, m.t["inventory.json."+m.inv.Digest])
		}
		m.desc += " " + n
		return true
	})
	mut("foreign-version-file", func(rng *rand.Rand, m *mobj) bool {
		v := pick(rng, sortedKeys(m.inv.Versions))
		n := v + "/" + pick(rng, []string{"README.txt", ".DS_Store", "inventory.json.bak", "inventory.json.md5", "0=ocfl_object_" + m.ver, "0=ocfl_object_9.9", "content.txt", "inventoryXjson", "inventory.jsonx", m.cd() + "x", "inventory.json.sha1"})
		if _, ok := m.t[n]; ok {
			return false
		}
		if _, ok := m.t[n+"/"]; ok {
			return false
		}
		for p := range m.t {
			if strings.HasPrefix(p, n+"/") {
				return false
			}
		}
		m.put(n, []byte("foreign"))
		m.desc += " " + n
		return true
	})
	mut("version-directory-missing", func(rng *rand.Rand, m *mobj) bool {
		v := pick(rng, sortedKeys(m.inv.Versions))
		m.desc += " " + v
		for p := range m.t {
			if strings.HasPrefix(p, v+"/") {
				m.del(strings.TrimSuffix(p, "/"))
			}
		}
		m.del(v)
		if rng.Intn(3) == 0 {
			m.put(v, []byte("a file instead of a directory"))
		}
		return true
	})
	mut("root-inventory-missing", func(rng *rand.Rand, m *mobj) bool {
		m.del("inventory.json")
		if rng.Intn(2) == 0 {
			m.del("inventory.json." + m.inv.Digest)
		}
		return true
	})
	mut("root-is-older-copy", func(rng *rand.Rand, m *mobj) bool {
		// rolled back root inventory
		if len(m.old) == 0 {
			return false
		}
		o := pick(rng, m.old)
		x := m.load(o)
		m.del("inventory.json." + m.inv.Digest)
		alg := asString(x["digestAlgorithm"])
		m.put("inventory.json", m.t[o+"/inventory.json"])
		m.put("inventory.json."+alg, m.t[o+"/inventory.json."+alg])
		return true
	})
}

// vnum names the k-th version in the padding of the object
func (m *mobj) vnum(k int) string {
	if strings.HasPrefix(m.inv.Head, "v0") {
		return fmt.Sprintf("v%0*d", len(m.inv.Head)-1, k)
	}
	return fmt.Sprintf("v%d", k)
}

func asString(v any) string { s, _ := v.(string); return s }

// rootMut plants a violation into the storage root itself
func (v *vroot) rootMut(rng *rand.Rand) *alter {
	a := &alter{class: "storage-root", set: map[string][]byte{}}
	n := "0=ocfl_" + v.cfg.Ver
	if _, ok := v.t[n]; !ok {
		return nil
	}
	switch k := rng.Intn(7); k {
	case 0:
		a.set[n] = nil
	case 1:
		a.set[n] = pick(rng, [][]byte{{}, []byte("ocfl_" + v.cfg.Ver), []byte("ocfl_9.9\n"), []byte("ocfl_object_" + v.cfg.Ver + "\n"), []byte("ocfl_" + v.cfg.Ver + "\n\n"), []byte("x")})
	case 2:
		o := map[string]string{"1.0": "1.1", "1.1": "1.0"}[v.cfg.Ver]
		a.set["0=ocfl_"+o] = []byte("ocfl_" + o + "\n")
	case 3:
		o := pick(rng, []string{"9.9", "0.1", "1.2"})
		a.set[n] = nil
		a.set["0=ocfl_"+o] = []byte("ocfl_" + o + "\n")
	case 4:
		a.set[n] = nil
		a.set[pick(rng, []string{"0=ocfl_" + v.cfg.Ver + ".txt", "x0=ocfl_" + v.cfg.Ver, "0=ocfl", "1=ocfl_" + v.cfg.Ver})] = v.t[n]
	case 5:
		// a file in the hierarchy above an object
		o := pick(rng, v.objs)
		i := strings.LastIndex(o, "/")
		if i < 0 {
			return nil
		}
		a.set[o[:i]+"/"+pick(rng, []string{"a file", "inventory.json", "zzz", ".hidden"})] = []byte("foreign")
	case 6:
		// the storage root declares an earlier version than its objects
		if v.cfg.Ver != "1.1" {
			return nil
		}
		a.set[n] = nil
		a.set["0=ocfl_1.0"] = []byte("ocfl_1.0\n")
		a.class = "earlier-storage-root"
	}
	a.desc = fmt.Sprint("storage root: ", sortedKeys(a.set))
	return a
}

func oracleErrors(errs []string) []string {
	var res []string
	for _, e := range errs {
		if !strings.HasPrefix(e, "W") && !strings.HasPrefix(e, "SHOULD") && !strings.HasPrefix(e, "E015/W002") && !strings.HasPrefix(e, "E073") {
			res = append(res, e)
		}
	}
	return res
}

func c06(r *Run) {
	r.Assume = []string{"an error returned while loading a storage root or object counts as a report", "extra directories in a version directory are only discouraged by the specification and not counted as violations", "which violation is reported is not compared, one error is enough"}
	per := r.N(40, 80)
	validRoots(r, "c06", r.N(120, 1500), r.N(700, 9000), func(rng *rand.Rand, v *vroot) {
		errs, err, p := v.verdict(0, "")
		if err != nil || p != "" || len(errs) > 0 {
			r.Count("skipped_unaltered_root_not_clean", 1)
			return
		}
		n := 0
		for tries := 0; n < per && tries < 5*per; tries++ {
			obj := pick(rng, v.objs)
			var a *alter
			mode := rng.Intn(2)
			if rng.Intn(20) == 0 {
				a = v.rootMut(rng)
				mode = 0
			} else {
				m := v.mutable(obj)
				if m == nil {
					continue
				}
				mu := pick(rng, mutators)
				if !mu.fn(rng, m) || len(m.set) == 0 {
					continue
				}
				a = &alter{class: mu.name, desc: mu.name + m.desc, set: map[string][]byte{}}
				for p, b := range m.set {
					a.set[obj+"/"+p] = b
				}
			}
			if a == nil {
				continue
			}
			restore := v.apply(a)
			at := readTree(v.dir)
			oe := oracleErrors(oracleRoot(at, nil))
			if len(oe) == 0 {
				restore()
				r.Count("no_violation_after_all", 1)
				continue
			}
			n++
			errs, err, p := v.verdict(mode, obj)
			restore()
			r.Case(a.class+v.feat+a.desc, true)
			r.Count("violation_"+a.class, 1)
			if len(oe) == 1 {
				r.Count("single_rule_violations", 1)
			}
			rep := map[string]any{"root": v.feat, "object": obj, "violation": a.desc, "oracle": first(oe, 5), "tree": renderTree(at.sub(obj))}
			switch {
			case p != "":
				r.Violate("panic:"+panicSite(p), "the validator panics on '"+a.desc+"': "+p, rep)
			case err == nil && len(errs) == 0:
				r.Violate("unreported:"+a.class, fmt.Sprintf("the validator reports no error for '%s' in object folder %s (%s): %s", a.desc, obj, v.feat, strings.Join(first(oe, 2), "; ")), rep)
			default:
				r.Count("reported", 1)
				if err != nil {
					r.Count("reported_as_returned_error", 1)
				}
				for _, e := range errs {
					r.Count("by_"+e.Code, 1)
				}
			}
		}
	})
}

// swapCase changes the case of the first letter that has one
func swapCase(s string) string {
	r := []rune(s)
	for i, c := range r {
		if u := unicode.ToUpper(c); u != c {
			r[i] = u
			break
		}
		if l := unicode.ToLower(c); l != c {
			r[i] = l
			break
		}
	}
	return string(r)
}
