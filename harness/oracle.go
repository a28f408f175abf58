package main

// An OCFL 1.0/1.1 validator written from the specification alone. It works on a snapshot (Tree)
// and shares no code with gocfl or je4/utils.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

type oInv struct {
	ID        string
	Type      string
	Digest    string
	Head      string
	ContDir   string // effective
	HasCD     bool
	Manifest  map[string][]string
	Versions  map[string]*oVer
	Fixity    map[string]map[string][]string
	raw       map[string]any
	Order     []string // version names ascending
	PathOf    map[string]string
	headIndex int
}

type oVer struct {
	Created string
	Time    time.Time
	Message string
	HasMsg  bool
	User    string
	Addr    string
	HasUser bool
	State   map[string][]string
}

// logical returns logical path -> digest (lower case)
func (v *oVer) logical() map[string]string {
	m := map[string]string{}
	for d, ps := range v.State {
		for _, p := range ps {
			m[p] = strings.ToLower(d)
		}
	}
	return m
}

type oracle struct {
	errs []string
}

func (o *oracle) e(code, format string, a ...any) {
	o.errs = append(o.errs, code+" "+fmt.Sprintf(format, a...))
}

var reVer = regexp.MustCompile(`^v(0*)([1-9][0-9]*)$`)

func badPath(p string) bool {
	if p == "" || strings.HasPrefix(p, "/") || strings.HasSuffix(p, "/") {
		return true
	}
	for _, s := range strings.Split(p, "/") {
		if s == "" || s == "." || s == ".." {
			return true
		}
	}
	return false
}

// strictObject decodes JSON and rejects duplicate keys on the levels where they matter
func dupKeys(data []byte) []string {
	dec := json.NewDecoder(bytes.NewReader(data))
	var dups []string
	var rec func() error
	rec = func() error {
		t, err := dec.Token()
		if err != nil {
			return err
		}
		if d, ok := t.(json.Delim); ok {
			switch d {
			case '{':
				seen := map[string]bool{}
				for dec.More() {
					k, err := dec.Token()
					if err != nil {
						return err
					}
					ks, _ := k.(string)
					if seen[ks] {
						dups = append(dups, ks)
					}
					seen[ks] = true
					if err := rec(); err != nil {
						return err
					}
				}
				_, err := dec.Token()
				return err
			case '[':
				for dec.More() {
					if err := rec(); err != nil {
						return err
					}
				}
				_, err := dec.Token()
				return err
			}
		}
		return nil
	}
	_ = rec()
	return dups
}

func pathMap(o *oracle, where string, v any) map[string][]string {
	res := map[string][]string{}
	m, ok := v.(map[string]any)
	if !ok {
		o.e("TYPE", "%s is not an object", where)
		return res
	}
	low := map[string]string{}
	for d, l := range m {
		if p, ok := low[strings.ToLower(d)]; ok {
			o.e("E096", "%s has digest %s twice (%s)", where, d, p)
		}
		low[strings.ToLower(d)] = d
		if d == "" || strings.Trim(strings.ToLower(d), "0123456789abcdef") != "" {
			o.e("DIGEST", "%s: '%s' is not a digest", where, d)
		}
		list, ok := l.([]any)
		if !ok {
			o.e("TYPE", "%s[%s] is not an array", where, d)
			continue
		}
		if len(list) == 0 {
			o.e("EMPTYLIST", "%s[%s] lists no path", where, d)
		}
		for _, x := range list {
			s, ok := x.(string)
			if !ok {
				o.e("TYPE", "%s[%s] has a non-string", where, d)
				continue
			}
			if !utf8.ValidString(s) {
				o.e("UTF8", "%s[%s] not UTF-8", where, d)
			}
			res[d] = append(res[d], s)
		}
	}
	return res
}

func conflicts(o *oracle, code, where string, m map[string][]string) {
	set := map[string]bool{}
	var all []string
	for _, ps := range m {
		for _, p := range ps {
			if badPath(p) {
				o.e("E053/E099", "%s: bad path '%s'", where, p)
			}
			if set[p] {
				o.e(code, "%s: path '%s' listed more than once", where, p)
			}
			set[p] = true
			all = append(all, p)
		}
	}
	for _, p := range all {
		for d := path.Dir(p); d != "." && d != "/"; d = path.Dir(d) {
			if set[d] {
				o.e(code, "%s: path '%s' is also a directory of '%s'", where, d, p)
			}
		}
	}
}

func (o *oracle) parseInventory(where string, data []byte) *oInv {
	for _, k := range dupKeys(data) {
		o.e("E033", "%s: duplicate key '%s'", where, k)
	}
	raw := map[string]any{}
	if err := json.Unmarshal(data, &raw); err != nil {
		o.e("E033", "%s: %v", where, err)
		return nil
	}
	inv := &oInv{raw: raw, Versions: map[string]*oVer{}, ContDir: "content"}
	str := func(k string, code string) string {
		v, ok := raw[k]
		if !ok {
			o.e(code, "%s: no '%s'", where, k)
			return ""
		}
		s, ok := v.(string)
		if !ok || s == "" {
			o.e(code, "%s: '%s' is not a non-empty string", where, k)
			return ""
		}
		return s
	}
	for k := range raw {
		switch k {
		case "id", "type", "digestAlgorithm", "head", "contentDirectory", "manifest", "versions", "fixity":
		default:
			o.e("E102", "%s: unexpected key '%s'", where, k)
		}
	}
	inv.ID = str("id", "E036")
	inv.Type = str("type", "E036")
	inv.Digest = str("digestAlgorithm", "E036")
	inv.Head = str("head", "E036")
	if inv.Digest != "sha512" && inv.Digest != "sha256" {
		o.e("E025", "%s: digestAlgorithm '%s'", where, inv.Digest)
	}
	if cd, ok := raw["contentDirectory"]; ok {
		s, ok := cd.(string)
		if !ok || s == "" || s == "." || s == ".." || strings.Contains(s, "/") {
			o.e("E017", "%s: contentDirectory %v", where, cd)
		} else {
			inv.ContDir = s
			inv.HasCD = true
		}
	}
	if m, ok := raw["manifest"]; ok {
		inv.Manifest = pathMap(o, where+" manifest", m)
	} else {
		o.e("E041", "%s: no manifest", where)
		inv.Manifest = map[string][]string{}
	}
	if f, ok := raw["fixity"]; ok {
		fm, ok := f.(map[string]any)
		if !ok {
			o.e("E111", "%s: fixity is not an object", where)
		}
		inv.Fixity = map[string]map[string][]string{}
		for alg, v := range fm {
			inv.Fixity[alg] = pathMap(o, where+" fixity "+alg, v)
		}
	}
	vs, ok := raw["versions"].(map[string]any)
	if !ok {
		o.e("E043", "%s: no versions", where)
		return inv
	}
	for name, v := range vs {
		ver := &oVer{}
		inv.Versions[name] = ver
		vm, ok := v.(map[string]any)
		if !ok {
			o.e("E048", "%s: version %s is not an object", where, name)
			ver.State = map[string][]string{}
			continue
		}
		for k := range vm {
			switch k {
			case "created", "state", "message", "user":
			default:
				o.e("E102", "%s: version %s: unexpected key '%s'", where, name, k)
			}
		}
		c, ok := vm["created"].(string)
		if !ok {
			o.e("E048", "%s: version %s: no created", where, name)
		} else {
			ver.Created = c
			t, err := time.Parse(time.RFC3339Nano, c)
			if err != nil {
				o.e("E049", "%s: version %s: created '%s'", where, name, c)
			}
			ver.Time = t
		}
		if st, ok := vm["state"]; ok {
			ver.State = pathMap(o, where+" "+name+" state", st)
		} else {
			o.e("E048", "%s: version %s: no state", where, name)
			ver.State = map[string][]string{}
		}
		if m, ok := vm["message"]; ok {
			ver.HasMsg = true
			if ver.Message, ok = m.(string); !ok {
				o.e("E094", "%s: version %s: message is not a string", where, name)
			}
		}
		if u, ok := vm["user"]; ok {
			ver.HasUser = true
			um, ok := u.(map[string]any)
			if !ok {
				o.e("E054", "%s: version %s: user is not an object", where, name)
			} else {
				if ver.User, ok = um["name"].(string); !ok || ver.User == "" {
					o.e("E054", "%s: version %s: user without name", where, name)
				}
				if a, ok := um["address"]; ok {
					if ver.Addr, ok = a.(string); !ok {
						o.e("E054", "%s: version %s: address is not a string", where, name)
					}
				}
			}
		}
	}
	// version names
	width := -1
	nums := map[int]string{}
	var ns []int
	for name := range inv.Versions {
		mm := reVer.FindStringSubmatch(name)
		if mm == nil {
			o.e("E046", "%s: version name '%s'", where, name)
			continue
		}
		n, err := strconv.Atoi(mm[2])
		if err != nil {
			o.e("E046", "%s: version name '%s'", where, name)
			continue
		}
		w := 0
		if mm[1] != "" {
			w = len(name)
		}
		if width == -1 {
			width = w
		} else if width != w {
			o.e("E012/E013", "%s: inconsistent zero padding at '%s'", where, name)
		}
		if _, ok := nums[n]; ok {
			o.e("E012", "%s: version %d twice", where, n)
		}
		nums[n] = name
		ns = append(ns, n)
	}
	sort.Ints(ns)
	if len(ns) == 0 {
		o.e("E008", "%s: no version", where)
	}
	for i, n := range ns {
		if n != i+1 {
			o.e("E009/E010", "%s: version sequence %v", where, ns)
			break
		}
	}
	for _, n := range ns {
		inv.Order = append(inv.Order, nums[n])
	}
	if len(inv.Order) > 0 && inv.Head != inv.Order[len(inv.Order)-1] {
		o.e("E040", "%s: head '%s' is not the last of %v", where, inv.Head, inv.Order)
	}
	conflicts(o, "E101", where+" manifest", inv.Manifest)
	inv.PathOf = map[string]string{}
	low := map[string]bool{}
	for d, ps := range inv.Manifest {
		low[strings.ToLower(d)] = true
		for _, p := range ps {
			inv.PathOf[p] = strings.ToLower(d)
			parts := strings.Split(p, "/")
			if len(parts) < 3 || inv.Versions[parts[0]] == nil || parts[1] != inv.ContDir {
				o.e("E042", "%s: manifest path '%s' is not below a version's content directory", where, p)
			}
		}
	}
	used := map[string]bool{}
	for name, v := range inv.Versions {
		conflicts(o, "E095", where+" "+name+" state", v.State)
		for d := range v.State {
			used[strings.ToLower(d)] = true
			if !low[strings.ToLower(d)] {
				o.e("E050", "%s: state of %s uses digest %s without manifest entry", where, name, d)
			}
		}
	}
	for d := range low {
		if !used[d] {
			o.e("E107", "%s: manifest digest %s is used by no version", where, d)
		}
	}
	for alg, m := range inv.Fixity {
		conflicts(o, "E101", where+" fixity "+alg, m)
		for d, ps := range m {
			for _, p := range ps {
				if _, ok := inv.PathOf[p]; !ok {
					o.e("E057", "%s: fixity %s %s lists unknown path '%s'", where, alg, d, p)
				}
			}
		}
	}
	return inv
}

func (o *oracle) sidecar(where string, t Tree, dir string, alg string, inv []byte) {
	p := dir + "inventory.json." + alg
	b, ok := t[p]
	if !ok {
		o.e("E058", "%s: no sidecar %s", where, p)
		return
	}
	m := regexp.MustCompile(`^([0-9a-fA-F]+)[ \t]+inventory\.json[ \t]*\n?$`).FindSubmatch(b)
	if m == nil {
		o.e("E061", "%s: sidecar format %q", where, clip(string(b), 200))
		return
	}
	if strings.ToLower(string(m[1])) != digest(alg, inv) {
		o.e("E060", "%s: sidecar digest does not match", where)
	}
}

// validateObject validates one object directory. wantID "" = any.
func oracleObject(t Tree, wantID string) (errs []string, inv *oInv) {
	o := &oracle{}
	defer func() { errs = o.errs }()
	ver := ""
	for p, b := range t {
		if strings.Contains(strings.TrimSuffix(p, "/"), "/") {
			continue
		}
		if strings.HasPrefix(p, "0=") && !strings.HasSuffix(p, "/") {
			if ver != "" {
				o.e("E003", "several declarations")
			}
			ver = strings.TrimPrefix(p, "0=ocfl_object_")
			if ver != "1.0" && ver != "1.1" {
				o.e("E004", "declaration %s", p)
			}
			if string(b) != "ocfl_object_"+ver+"\n" {
				o.e("E007", "declaration content %q", string(b))
			}
		}
	}
	if ver == "" {
		o.e("E003", "no declaration")
	}
	data, ok := t["inventory.json"]
	if !ok {
		o.e("E063", "no inventory")
		return
	}
	inv = o.parseInventory("root inventory", data)
	if inv == nil {
		return
	}
	if inv.Type != "https://ocfl.io/"+ver+"/spec/#inventory" {
		o.e("E038", "type %s in a %s object", inv.Type, ver)
	}
	if wantID != "" && inv.ID != wantID {
		o.e("E037", "id '%s', expected '%s'", inv.ID, wantID)
	}
	o.sidecar("root", t, "", inv.Digest, data)
	// top level
	for p := range t {
		top := p
		if i := strings.Index(p, "/"); i >= 0 {
			top = p[:i]
			if top == "extensions" || top == "logs" {
				if top == "extensions" && p != "extensions/" && !strings.Contains(p[len("extensions/"):], "/") {
					o.e("E067", "file %s in extensions", p)
				}
				continue
			}
			if inv.Versions[top] == nil {
				o.e("E001/E046", "extra directory %s", top)
			}
			continue
		}
		switch {
		case strings.HasPrefix(p, "0="), p == "inventory.json", p == "inventory.json."+inv.Digest:
		default:
			o.e("E001", "extra file %s", p)
		}
	}
	if bytes.Equal(data, nil) {
		return
	}
	// version directories
	for i, name := range inv.Order {
		vt := t.sub(name)
		if _, ok := t[name+"/"]; !ok && len(vt) == 0 {
			o.e("E010", "no directory for version %s", name)
			continue
		}
		vdata, ok := vt["inventory.json"]
		var vinv *oInv
		vo := &oracle{}
		if ok {
			vinv = vo.parseInventory(name+" inventory", vdata)
		}
		if i == len(inv.Order)-1 {
			if !ok {
				o.e("SHOULD", "no inventory in head version %s", name)
			} else if !bytes.Equal(vdata, data) {
				o.e("E064", "inventory of head %s differs from the root", name)
			}
		}
		dig := inv.Digest
		if vinv != nil {
			dig = vinv.Digest
			o.errs = append(o.errs, vo.errs...)
			o.sidecar(name, vt, "", vinv.Digest, vdata)
			if vinv.ID != inv.ID {
				o.e("E037", "%s has id '%s'", name, vinv.ID)
			}
			if vinv.Head != name {
				o.e("E040", "%s has head '%s'", name, vinv.Head)
			}
			if vinv.ContDir != inv.ContDir {
				o.e("E019/E020", "%s has content directory '%s'", name, vinv.ContDir)
			}
			if vinv.Type != inv.Type && i == len(inv.Order)-1 {
				o.e("E038", "%s has type %s", name, vinv.Type)
			}
			for _, vn := range vinv.Order {
				rv := inv.Versions[vn]
				if rv == nil {
					o.e("E066", "%s describes version %s unknown to the root", name, vn)
					continue
				}
				sv := vinv.Versions[vn]
				if !sameStates(vinv, sv, inv, rv, t) {
					o.e("E066", "%s: state of %s differs from that of the root", name, vn)
				}
				if sv.Message != rv.Message || sv.User != rv.User || sv.Addr != rv.Addr || !sv.Time.Equal(rv.Time) {
					o.e("W011", "%s: metadata of %s differs from that of the root", name, vn)
				}
			}
		}
		for p := range vt {
			first, rest, nested := strings.Cut(p, "/")
			if !nested {
				if p != "inventory.json" && p != "inventory.json."+dig {
					o.e("E015", "extra file %s/%s", name, p)
				}
				continue
			}
			_ = rest
			if first != inv.ContDir {
				o.e("E015/W002", "extra directory %s/%s", name, first)
				continue
			}
			full := name + "/" + p
			if strings.HasSuffix(p, "/") {
				if len(t.sub(strings.TrimSuffix(full, "/"))) == 0 {
					o.e("E024", "empty directory %s", full)
				}
				continue
			}
			if _, ok := inv.PathOf[full]; !ok {
				o.e("E023", "content file %s is not in the manifest", full)
			}
			if vinv != nil {
				if _, ok := vinv.PathOf[full]; !ok {
					o.e("E023", "content file %s is not in the manifest of %s", full, name)
				}
			}
		}
		if vinv != nil {
			o.checkDigests(name, vinv, t)
		}
	}
	o.checkDigests("root", inv, t)
	return
}

func (o *oracle) checkDigests(where string, inv *oInv, t Tree) {
	for p, d := range inv.PathOf {
		b, ok := t[p]
		if !ok {
			o.e("E092", "%s: content file %s is missing", where, p)
			continue
		}
		if inv.Digest == "sha512" || inv.Digest == "sha256" {
			if digest(inv.Digest, b) != d {
				o.e("E092", "%s: digest of %s does not match its content", where, p)
			}
		}
	}
	for alg, m := range inv.Fixity {
		if newHash(alg) == nil {
			continue
		}
		for d, ps := range m {
			for _, p := range ps {
				if b, ok := t[p]; ok && digest(alg, b) != strings.ToLower(d) {
					o.e("E093", "%s: fixity %s of %s does not match its content", where, alg, p)
				}
			}
		}
	}
}

func sameStates(a *oInv, av *oVer, b *oInv, bv *oVer, t Tree) bool {
	al, bl := av.logical(), bv.logical()
	if len(al) != len(bl) {
		return false
	}
	for p, d := range al {
		d2, ok := bl[p]
		if !ok {
			return false
		}
		if a.Digest == b.Digest {
			if d != d2 {
				return false
			}
			continue
		}
		// compare by content
		ca, oka := contentOf(a, d, t)
		cb, okb := contentOf(b, d2, t)
		if oka && okb && !bytes.Equal(ca, cb) {
			return false
		}
	}
	return true
}

func contentOf(inv *oInv, d string, t Tree) ([]byte, bool) {
	for md, ps := range inv.Manifest {
		if strings.EqualFold(md, d) {
			for _, p := range ps {
				if b, ok := t[p]; ok {
					return b, true
				}
			}
		}
	}
	return nil, false
}

// oracleRoot validates a storage root; objects maps object path -> expected id ("" = any); nil = do not care
func oracleRoot(t Tree, objects map[string]string) (errs []string) {
	o := &oracle{}
	ver := ""
	for p, b := range t {
		if strings.Contains(strings.TrimSuffix(p, "/"), "/") {
			continue
		}
		if strings.HasPrefix(p, "0=") && !strings.HasSuffix(p, "/") {
			if ver != "" {
				o.e("E076", "several root declarations")
			}
			ver = strings.TrimPrefix(p, "0=ocfl_")
			if ver != "1.0" && ver != "1.1" {
				o.e("E004", "root declaration %s", p)
			}
			if string(b) != "ocfl_"+ver+"\n" {
				o.e("E080", "root declaration content %q", string(b))
			}
		}
	}
	if ver == "" {
		o.e("E069", "no root declaration")
	}
	if b, ok := t["ocfl_layout.json"]; ok {
		m := map[string]any{}
		if err := json.Unmarshal(b, &m); err != nil {
			o.e("E070", "ocfl_layout.json: %v", err)
		}
		e, ok1 := m["extension"].(string)
		_, ok2 := m["description"].(string)
		if !ok1 || !ok2 {
			o.e("E070", "ocfl_layout.json lacks extension or description")
		}
		if _, ok := t["extensions/"+e+"/config.json"]; !ok {
			o.e("E071", "ocfl_layout.json names '%s' which is not among the extensions", e)
		}
	}
	found := map[string]bool{}
	for p := range t {
		d, f := path.Split(p)
		d = strings.TrimSuffix(d, "/")
		if strings.HasPrefix(f, "0=ocfl_object_") && d != "" {
			found[d] = true
		}
	}
	// an object root ends the hierarchy: declarations in its content are just files
	for d := range found {
		for a := path.Dir(d); a != "."; a = path.Dir(a) {
			if found[a] {
				delete(found, d)
				break
			}
		}
	}
	for p := range t {
		if strings.HasPrefix(p, "extensions/") || !strings.Contains(strings.TrimSuffix(p, "/"), "/") && !strings.HasSuffix(p, "/") {
			continue
		}
		q := strings.TrimSuffix(p, "/")
		in := 0
		isAncestor := false
		for d := range found {
			if q == d || strings.HasPrefix(q, d+"/") {
				in++
			}
			if strings.HasPrefix(d, q+"/") {
				isAncestor = true
			}
		}
		if in > 1 {
			o.e("E084", "object inside an object at %s", p)
		}
		if in == 0 {
			if !strings.HasSuffix(p, "/") {
				o.e("E072", "file %s outside of objects", p)
			} else if !isAncestor {
				o.e("E073", "directory %s leads to no object", p)
			}
		}
	}
	for d := range found {
		want := ""
		if objects != nil {
			w, ok := objects[d]
			if !ok {
				o.e("EXTRA", "unexpected object at %s", d)
			}
			want = w
		}
		for _, v := range []string{"1.1"} {
			if _, ok := t[d+"/0=ocfl_object_"+v]; ok && ver != "" && v > ver {
				o.e("E081", "object of OCFL %s in a storage root of OCFL %s @%s", v, ver, d)
			}
		}
		es, _ := oracleObject(t.sub(d), want)
		for _, e := range es {
			o.errs = append(o.errs, e+" @"+d)
		}
	}
	for d := range objects {
		if !found[d] {
			o.e("LOST", "no object at %s", d)
		}
	}
	sort.Strings(o.errs)
	return o.errs
}
