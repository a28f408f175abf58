package main

// C27: the METS and PREMIS documents of a version are judged by an independent reading of the XML against
// the inventory and the bytes on disk.

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"math/rand"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

func init() {
	register("C27", "exploration", "random histories of objects with METS configurations (three storage types, areas, digests, fixity, indexer, filesystem, metafile, primary descriptive metadata, odd names) ; non-trivial when at least one pair of documents was judged; every generated METS and PREMIS document is parsed and compared with the inventory and the bytes of its version", c27)
}

// ---- reading XML ----------------------------------------------------------

type xnode struct {
	name string // "space local"
	attr map[string]string
	kids []*xnode
	text string
}

const (
	nsMets   = "http://www.loc.gov/METS/"
	nsPremis = "http://www.loc.gov/premis/v3"
	nsXlink  = "http://www.w3.org/1999/xlink"
	nsXsi    = "http://www.w3.org/2001/XMLSchema-instance"
)

// parseXML is stricter than encoding/xml: one root, no attribute twice, declared prefixes only
func parseXML(b []byte) (*xnode, error) {
	if !utf8.Valid(b) {
		return nil, fmt.Errorf("no valid UTF-8")
	}
	// prefixes are checked on the raw tokens
	raw := xml.NewDecoder(bytes.NewReader(b))
	var scopes []map[string]bool
	declared := func(p string) bool {
		if p == "" || p == "xml" || p == "xmlns" {
			return true
		}
		for _, s := range scopes {
			if s[p] {
				return true
			}
		}
		return false
	}
	for {
		t, err := raw.RawToken()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch e := t.(type) {
		case xml.StartElement:
			s := map[string]bool{}
			seen := map[string]bool{}
			for _, a := range e.Attr {
				if a.Name.Space == "xmlns" {
					s[a.Name.Local] = true
				}
				k := a.Name.Space + ":" + a.Name.Local
				if seen[k] {
					return nil, fmt.Errorf("attribute %s twice in <%s>", k, e.Name.Local)
				}
				seen[k] = true
			}
			scopes = append(scopes, s)
			if !declared(e.Name.Space) {
				return nil, fmt.Errorf("undeclared prefix %s of <%s>", e.Name.Space, e.Name.Local)
			}
			for _, a := range e.Attr {
				if !declared(a.Name.Space) {
					return nil, fmt.Errorf("undeclared prefix %s in <%s>", a.Name.Space, e.Name.Local)
				}
			}
		case xml.EndElement:
			if len(scopes) > 0 {
				scopes = scopes[:len(scopes)-1]
			}
		}
	}
	d := xml.NewDecoder(bytes.NewReader(b))
	var root *xnode
	var stack []*xnode
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch e := t.(type) {
		case xml.StartElement:
			n := &xnode{name: e.Name.Space + " " + e.Name.Local, attr: map[string]string{}}
			for _, a := range e.Attr {
				k := a.Name.Local
				if a.Name.Space != "" {
					k = a.Name.Space + " " + k
				}
				n.attr[k] = a.Value
			}
			if len(stack) > 0 {
				p := stack[len(stack)-1]
				p.kids = append(p.kids, n)
			} else if root != nil {
				return nil, fmt.Errorf("more than one root element")
			} else {
				root = n
			}
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) > 0 {
				stack[len(stack)-1].text += string(e)
			} else if strings.TrimSpace(string(e)) != "" {
				return nil, fmt.Errorf("text outside of the root element")
			}
		}
	}
	if root == nil {
		return nil, fmt.Errorf("no root element")
	}
	return root, nil
}

func (n *xnode) local() string { _, l, _ := strings.Cut(n.name, " "); return l }

// all finds the descendants with the local name
func (n *xnode) all(local string) (r []*xnode) {
	for _, k := range n.kids {
		if k.local() == local {
			r = append(r, k)
		}
		r = append(r, k.all(local)...)
	}
	return
}

// get is the first child of the path of local names
func (n *xnode) get(names ...string) *xnode {
	for _, name := range names {
		var f *xnode
		for _, k := range n.kids {
			if k.local() == name {
				f = k
				break
			}
		}
		if f == nil {
			return &xnode{attr: map[string]string{}}
		}
		n = f
	}
	return n
}

func (n *xnode) val() string { return strings.TrimSpace(n.text) }

// xmlSafe is what XML can hold of a string
func xmlSafe(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r == 0x09 || r == 0x0A || r == 0x0D || r >= 0x20 && r <= 0xD7FF || r >= 0xE000 && r <= 0xFFFD || r >= 0x10000 && r <= 0x10FFFF {
			b.WriteRune(r)
		} else {
			b.WriteRune('\uFFFD')
		}
	}
	return b.String()
}

// ---- the documents --------------------------------------------------------

// metsSpec is the METS configuration of an object
type metsSpec struct {
	Type, Name, Mets, Premis string
	Primary                  string // logical name of the primary descriptive metadata
}

// docs are the places of the documents: logical names, or files of the extension folder
func (m *metsSpec) docs(c *Cfg) (mets, premis string) {
	switch m.Type {
	case "area":
		pre, _ := c.prefix(m.Name)
		return path.Join(pre, m.Mets), path.Join(pre, m.Premis)
	case "path":
		pre, _ := c.prefix("content")
		return path.Join(pre, m.Name, m.Mets), path.Join(pre, m.Name, m.Premis)
	}
	return path.Join("extensions/NNNN-mets", m.Name, m.Mets), path.Join("extensions/NNNN-mets", m.Name, m.Premis)
}

var metsAlgs = map[string]string{"SHA-512": "sha512", "SHA-256": "sha256", "SHA-384": "sha384", "SHA-1": "sha1", "MD5": "md5"}

var ncName = regexp.MustCompile(`^[\p{L}_][\p{L}\p{N}\p{M}_.\-]*$`)

// hrefs are the paths a reference can mean: read as URL, or literally
func hrefs(h string) []string {
	r := []string{h}
	if u, err := url.Parse(h); err == nil && u.Scheme == "" && u.Host == "" && u.RawQuery == "" && u.Fragment == "" {
		r = append(r, strings.TrimPrefix(u.Path, "./"))
	}
	return r
}

type metsJudge struct {
	bad    func(key, f string, a ...any)
	t      Tree // the object
	inv    *jinv
	ver    string
	c      *Cfg
	m      *metsSpec
	state  map[string]string           // logical name -> digest
	cont   map[string]string           // content path -> digest
	byDig  map[string][]string         // digest -> content paths
	docs   [2]string                   // logical names of the documents
	old    map[string]bool             // digests of documents of all versions
	schema map[string]bool             // logical names of the schemas
	index  map[string][]map[string]any // digest -> what the indexer recorded for it
	ctime  map[string]map[string]bool  // digest, or digest and logical name -> creation times recorded for it
	// results
	files, formats, times int
	objs                  map[[2]string]string // PREMIS object -> digest
	pdoc                  *xnode
}

func newMetsJudge(c *Cfg, m *metsSpec, t Tree, inv *jinv, ver string, bad func(key, f string, a ...any)) *metsJudge {
	j := &metsJudge{bad: bad, t: t, inv: inv, ver: ver, c: c, m: m, state: inv.logical(ver), cont: map[string]string{}, byDig: map[string][]string{}, old: map[string]bool{}, schema: map[string]bool{}}
	for d, ps := range inv.Manifest {
		d = strings.ToLower(d)
		for _, p := range ps {
			j.cont[p] = d
			j.byDig[d] = append(j.byDig[d], p)
		}
	}
	j.index, j.ctime = map[string][]map[string]any{}, map[string]map[string]bool{}
	for v := range inv.Versions {
		fl, _, _ := storedLines(t, "filesystem", v)
		st := inv.logical(v)
		for _, l := range fl {
			x, _ := l.raw["meta"].(map[string]any)
			tm, err := time.Parse(time.RFC3339, asString(x["cTime"]))
			d, ok := st[l.path]
			if err != nil || !ok {
				continue
			}
			for _, k := range []string{d, d + " " + l.path} {
				if j.ctime[k] == nil {
					j.ctime[k] = map[string]bool{}
				}
				j.ctime[k][tm.Format("2006-01-02T15:04:05")] = true
			}
		}
		lines, _, err := storedLines(t, "indexer", v)
		if err != nil {
			continue
		}
		for _, l := range lines {
			d, ok := j.cont[l.path]
			x, ok2 := l.raw["Indexer"].(map[string]any)
			if !ok2 {
				x, ok2 = l.raw["indexer"].(map[string]any)
			}
			if ok && ok2 {
				j.index[d] = append(j.index[d], x)
			}
		}
	}
	if m.Type != "extension" {
		j.docs[0], j.docs[1] = m.docs(c)
		for v := range inv.Versions {
			l := inv.logical(v)
			for _, d := range j.docs {
				if x, ok := l[d]; ok {
					j.old[x] = true
				}
			}
		}
		for _, n := range []string{"mets", "premis", "xlink"} {
			j.schema[path.Join(path.Dir(j.docs[0]), "schemas", n+".xsd")] = true
		}
	}
	return j
}

// doc reads one of the documents
func (j *metsJudge) doc(i int) ([]byte, bool) {
	if j.m.Type == "extension" {
		a, b := j.m.docs(j.c)
		n := strings.ReplaceAll([]string{a, b}[i], "%s", j.ver)
		x, ok := j.t[n]
		return x, ok
	}
	return j.logical(j.docs[i])
}

func (j *metsJudge) logical(l string) ([]byte, bool) {
	d, ok := j.state[l]
	if !ok {
		return nil, false
	}
	for _, p := range j.byDig[d] {
		if b, ok := j.t[p]; ok {
			return b, true
		}
	}
	return nil, false
}

// locate resolves a reference: kind "int" (file of the object) or "ext" (logical name)
func (j *metsJudge) locate(el *xnode) (kind, name string, content []byte, ok bool) {
	h, has := el.attr[nsXlink+" href"]
	switch {
	case el.attr["LOCTYPE"] == "OTHER" && el.attr["OTHERLOCTYPE"] == "URL:internal":
		kind = "int"
	case el.attr["LOCTYPE"] == "URL":
		kind = "ext"
	}
	if !has {
		return kind, "", nil, false
	}
	for _, n := range hrefs(h) {
		if kind == "int" {
			if b, ok := j.t[n]; ok && !strings.HasSuffix(n, "/") {
				return kind, n, b, true
			}
		} else if kind == "ext" {
			if b, ok := j.logical(n); ok {
				return kind, n, b, true
			}
		}
	}
	return kind, h, nil, false
}

// attrs checks size and checksum
func (j *metsJudge) attrs(el *xnode, what string, content []byte) {
	alg, ok := metsAlgs[el.attr["CHECKSUMTYPE"]]
	if !ok {
		j.bad("checksum-type", "%s has the checksum type %q", what, el.attr["CHECKSUMTYPE"])
	} else if cs := el.attr["CHECKSUM"]; !strings.EqualFold(cs, digest(alg, content)) {
		j.bad("checksum", "%s has the %s %s, the file has %s", what, el.attr["CHECKSUMTYPE"], clip(cs, 20), clip(digest(alg, content), 20))
	}
	if s, ok := el.attr["SIZE"]; (ok || len(content) > 0) && s != strconv.Itoa(len(content)) {
		j.bad("size", "%s has the size %q, the file has %d bytes", what, s, len(content))
	}
}

// judge both documents
func (j *metsJudge) judge() {
	var docs [2]*xnode
	var raw [2][]byte
	for i, n := range []string{"METS", "PREMIS"} {
		b, ok := j.doc(i)
		if !ok {
			j.bad("missing:"+n, "there is no %s document", n)
			return
		}
		x, err := parseXML(b)
		if err != nil {
			j.bad("not-well-formed:"+n, "the %s document is not well-formed: %v", n, err)
			return
		}
		docs[i], raw[i] = x, b
	}
	m, p := docs[0], docs[1]
	if m.name != nsMets+" mets" || p.name != nsPremis+" premis" {
		j.bad("root-element", "root elements %q and %q", m.name, p.name)
		return
	}
	if m.attr["OBJID"] != xmlSafe(j.inv.ID) {
		j.bad("object-id", "OBJID is %q", m.attr["OBJID"])
	}
	if id := m.get("metsHdr", "metsDocumentID").val(); id != strings.TrimSpace(xmlSafe(path.Base(strings.ReplaceAll(j.m.Mets, "%s", j.ver)))) {
		j.bad("document-id", "the METS document %q says to be %q", j.m.Mets, id)
	}
	// identifiers
	ids := map[string]bool{}
	var walk func(n *xnode, f func(n *xnode))
	walk = func(n *xnode, f func(n *xnode)) {
		f(n)
		for _, k := range n.kids {
			walk(k, f)
		}
	}
	walk(m, func(n *xnode) {
		id, ok := n.attr["ID"]
		if !ok {
			return
		}
		if ids[id] {
			j.bad("duplicate-id", "the METS identifier %q is defined twice", id)
		}
		if !ncName.MatchString(id) {
			j.bad("invalid-id", "%q is no XML identifier", id)
		}
		ids[id] = true
	})
	walk(m, func(n *xnode) {
		for _, a := range []string{"FILEID", "DMDID", "ADMID"} {
			for _, id := range strings.Fields(n.attr[a]) {
				if !ids[id] {
					j.bad("undefined-reference", "METS refers to the undefined %s %q", a, id)
				}
			}
		}
	})
	// files
	inFile, inDmd := map[string]int{}, map[string]int{}
	intDmd := map[string]bool{}
	fileDig := map[string]string{} // file id -> digest
	group := map[string]string{}   // file id -> USE
	known := func(kind, name, what string) bool {
		if kind == "ext" {
			return true
		}
		d := j.cont[name]
		for _, x := range j.state {
			if x == d {
				return true
			}
		}
		if j.old[d] {
			return true
		}
		j.bad("foreign-file", "%s (%s) is not part of version %s", what, name, j.ver)
		return false
	}
	for _, grp := range m.all("fileGrp") {
		for _, f := range grp.kids {
			if f.local() != "file" {
				continue
			}
			j.files++
			id := f.attr["ID"]
			group[id] = grp.attr["USE"]
			n := map[string]int{}
			for _, l := range f.all("FLocat") {
				kind, name, content, ok := j.locate(l)
				if !ok {
					j.bad("unreachable", "the %s location %q of a METS file does not exist", kind, name)
					continue
				}
				n[kind]++
				known(kind, name, "a METS file")
				j.attrs(f, fmt.Sprintf("METS file %q", name), content)
				fileDig[id] = digest(j.inv.Digest, content)
				want := "application/octet-stream"
				okm := false
				for _, x := range j.index[digest(j.inv.Digest, content)] {
					want = asString(x["mimetype"])
					okm = okm || f.attr["MIMETYPE"] == want
				}
				if !okm && f.attr["MIMETYPE"] != want {
					j.bad("mimetype", "METS file %q has the type %q instead of %q", name, f.attr["MIMETYPE"], want)
				}
				d := digest(j.inv.Digest, content)
				all := j.ctime[d]
				if own, ok := j.ctime[d+" "+name]; ok && kind == "ext" {
					all = own
				}
				if got := f.attr["CREATED"]; got == "" && len(all) > 0 || got != "" && !all[got] {
					j.bad("created", "METS file %q has the creation time %q, recorded are %v", name, got, sortedKeys(all))
				} else if got != "" {
					j.times++
				}
				if kind == "ext" {
					inFile[name]++
					if j.c.Areas != nil {
						want, sch := j.area(name)
						if got := grp.attr["USE"]; want != "" && got != want && !(sch && got == "schemas") {
							j.bad("file-group", "%q of area %q is in the file group %q", name, want, got)
						}
					}
				}
			}
			if n["int"] == 0 {
				j.bad("no-internal-location", "METS file %s has no location in the object", id)
			}
			if n["ext"] == 0 && !j.old[fileDig[id]] {
				j.bad("no-external-location", "METS file %s has no name", id)
			}
		}
	}
	for _, s := range m.all("dmdSec") {
		for _, r := range s.all("mdRef") {
			kind, name, content, ok := j.locate(r)
			if !ok {
				j.bad("unreachable", "the %s location %q of descriptive metadata does not exist", kind, name)
				continue
			}
			known(kind, name, "descriptive metadata")
			j.attrs(r, fmt.Sprintf("descriptive metadata %q", name), content)
			if kind == "ext" {
				inDmd[name]++
				if s.attr["GROUPID"] == "primary-metadata" && name != j.m.Primary {
					j.bad("primary", "the primary descriptive metadata is %q instead of %q", name, j.m.Primary)
				}
			} else {
				intDmd[j.cont[name]] = true
			}
		}
	}
	if j.m.Primary != "" {
		n := 0
		for _, s := range m.all("dmdSec") {
			if s.attr["GROUPID"] == "primary-metadata" {
				n++
			}
		}
		if n == 0 {
			j.bad("no-primary", "the primary descriptive metadata is not referenced")
		}
	}
	for _, l := range sortedKeys(j.state) {
		if l == j.docs[0] || l == j.docs[1] || j.schema[l] {
			continue
		}
		if inFile[l]+inDmd[l] == 0 {
			j.bad("not-listed", "%q is not listed by METS", l)
		}
		if inFile[l] > 1 || inDmd[l] > 1 {
			j.bad("listed-twice", "%q is listed %d+%d times by METS", l, inFile[l], inDmd[l])
		}
		if inFile[l] == 0 && inDmd[l] > 0 && !intDmd[j.state[l]] {
			j.bad("no-internal-location", "descriptive metadata %q has no location in the object", l)
		}
	}
	for _, d := range j.docs {
		if d != "" && inFile[d]+inDmd[d] > 0 {
			j.bad("self", "the document %q lists itself with an earlier content", d)
		}
	}
	// structure
	for _, sm := range m.all("structMap") {
		ref := map[string]bool{}
		for _, d := range sm.all("div") {
			for _, f := range d.kids {
				if f.local() != "fptr" {
					continue
				}
				id := f.attr["FILEID"]
				ref[id] = true
				if g, ok := group[id]; ok && sm.attr["TYPE"] == "physical" && g != d.attr["LABEL"] {
					j.bad("structure", "the file %s of group %q is in the division %q", id, g, d.attr["LABEL"])
				}
			}
		}
		for id := range group {
			if !ref[id] {
				j.bad("structure-incomplete", "the file %s is not part of the %s structure", id, sm.attr["TYPE"])
			}
		}
	}
	// premis document
	n := 0
	for _, s := range m.all("digiprovMD") {
		for _, r := range s.all("mdRef") {
			h := r.attr[nsXlink+" href"]
			kind, name, content, ok := j.locate(r)
			if !ok {
				j.bad("unreachable", "the %s location %q of the PREMIS document does not exist", kind, name)
				continue
			}
			n++
			if !bytes.Equal(content, raw[1]) {
				j.bad("other-premis", "%q is not the PREMIS document of the version", h)
			}
			j.attrs(r, "the PREMIS document", content)
		}
	}
	if n == 0 {
		j.bad("no-premis", "METS does not refer to the PREMIS document")
	}
	// schemas
	for i, d := range docs {
		f := strings.Fields(d.attr[nsXsi+" schemaLocation"])
		for k := 1; k < len(f); k += 2 {
			if u, err := url.Parse(f[k]); err == nil && u.IsAbs() {
				continue
			}
			ok := false
			if j.m.Type == "extension" {
				a, b := j.m.docs(j.c)
				_, ok = j.t[path.Join(path.Dir([]string{a, b}[i]), f[k])]
			} else {
				_, ok = j.logical(path.Join(path.Dir(j.docs[i]), f[k]))
			}
			if !ok {
				j.bad("schema-unreachable", "the schema %q does not exist next to the document", f[k])
			}
		}
	}
	j.premis(p, fileDig)
}

// area is the area of a logical name, and whether it is a schema in there
func (j *metsJudge) area(l string) (area string, schema bool) {
	best := -1
	for a, p := range j.c.Areas {
		if strings.HasPrefix(l, p+"/") && len(p) > best {
			best, area, schema = len(p), a, strings.HasPrefix(l[len(p)+1:], "schemas/")
		}
	}
	return
}

// characteristics compares formats and properties of a PREMIS object with what the indexer recorded for the content
func (j *metsJudge) characteristics(o *xnode, id, dig string) {
	var got []string
	for _, f := range o.all("format") {
		note := f.get("formatNote").val()
		if note == "siegfried" {
			note += " " + f.get("formatRegistry", "formatRegistryKey").val() + " " + f.get("formatDesignation", "formatName").val()
		} else {
			note += " " + f.get("formatDesignation", "formatName").val()
		}
		got = append(got, strings.Join(strings.Fields(note), " "))
	}
	for _, p := range o.all("significantProperties") {
		got = append(got, p.get("significantPropertiesType").val()+"="+p.get("significantPropertiesValue").val())
	}
	var want []string
	for _, x := range j.index[dig] {
		want = nil
		if s := asString(x["mimetype"]); s != "" {
			want = append(want, "IANA MIME-type "+s)
		}
		m, _ := x["metadata"].(map[string]any)
		l, _ := m["siegfried"].([]any)
		for _, e := range l {
			if e, ok := e.(map[string]any); ok && asString(x["pronom"]) != "" {
				want = append(want, strings.Join(strings.Fields("siegfried "+asString(e["ID"])+" "+asString(e["Name"])), " "))
			}
		}
		if n, _ := x["width"].(float64); n > 0 {
			h, _ := x["height"].(float64)
			want = append(want, fmt.Sprintf("width=%v", n), fmt.Sprintf("height=%v", h))
		}
		if n, _ := x["duration"].(float64); n > 0 {
			want = append(want, fmt.Sprintf("duration=%v", n))
		}
		if eqStrings(got, want) {
			break
		}
	}
	if j.index[dig] == nil {
		want = []string{"IANA MIME-type application/octet-stream"}
	} else {
		j.formats++
	}
	if !eqStrings(got, want) {
		j.bad("premis-characteristics", "the PREMIS object %s is described as %q, the indexer recorded %q", id, got, want)
	}
}

func (j *metsJudge) premis(p *xnode, fileDig map[string]string) {
	// content with a digest of an algorithm
	find := func(alg, d string) string {
		for dig, ps := range j.byDig {
			if b, ok := j.t[ps[0]]; ok && strings.EqualFold(digest(alg, b), d) {
				return dig
			}
		}
		return ""
	}
	type key struct{ t, v string }
	objs, agents, events := map[key]string{}, map[key]string{}, map[key]bool{}
	j.objs, j.pdoc = map[[2]string]string{}, p
	count := map[string]int{}
	xids := map[string]bool{}
	for _, o := range p.kids {
		if id, ok := o.attr["xmlID"]; ok {
			if xids[id] {
				j.bad("premis-duplicate-id", "the PREMIS identifier %q is defined twice", id)
			}
			if !ncName.MatchString(id) {
				j.bad("invalid-id", "%q is no XML identifier", id)
			}
			xids[id] = true
		}
		switch o.local() {
		case "object":
			id := o.get("objectIdentifier")
			k := key{id.get("objectIdentifierType").val(), id.get("objectIdentifierValue").val()}
			if _, ok := objs[k]; ok {
				j.bad("premis-duplicate-id", "the PREMIS object %v is defined twice", k)
			}
			dig := ""
			fx := o.all("fixity")
			if len(fx) == 0 {
				j.bad("premis-no-fixity", "the PREMIS object %v has no fixity", k)
				objs[k] = ""
				continue
			}
			// the digest of the object's algorithm tells which content it is
			for i, f := range fx {
				a := f.get("messageDigestAlgorithm").val()
				alg, ok := metsAlgs[a]
				if !ok {
					alg = a
				}
				if newHash(alg) == nil {
					j.bad("premis-algorithm", "the PREMIS object %v has a digest of %q", k, a)
					continue
				}
				d := f.get("messageDigest").val()
				if i == 0 {
					dig = find(alg, d)
					if dig == "" {
						j.bad("premis-fixity", "the PREMIS object %v has the %s digest %s, which no stored file has", k, a, clip(d, 20))
						break
					}
				} else if b := j.t[j.byDig[dig][0]]; !strings.EqualFold(d, digest(alg, b)) {
					j.bad("premis-fixity", "the PREMIS object %v has a wrong %s digest", k, a)
				}
			}
			objs[k] = dig
			if dig == "" {
				continue
			}
			j.objs[[2]string{k.t, k.v}] = dig
			count[dig]++
			if s := o.get("objectCharacteristics", "size").val(); s != strconv.Itoa(len(j.t[j.byDig[dig][0]])) {
				j.bad("premis-size", "the PREMIS object %v has the size %q, the file has %d bytes", k, s, len(j.t[j.byDig[dig][0]]))
			}
			j.characteristics(o, k.v, dig)
			if d, ok := fileDig[k.v]; ok && !strings.EqualFold(d, dig) {
				j.bad("premis-mets", "the object %v is another file in PREMIS than in METS", k)
			}
		case "agent":
			for _, id := range o.all("agentIdentifier") {
				k := key{id.get("agentIdentifierType").val(), id.get("agentIdentifierValue").val()}
				if _, ok := agents[k]; ok {
					j.bad("premis-duplicate-id", "the PREMIS agent %v is defined twice", k)
				}
				agents[k] = o.get("agentName").val()
			}
		case "event":
			id := o.get("eventIdentifier")
			k := key{id.get("eventIdentifierType").val(), id.get("eventIdentifierValue").val()}
			if events[k] {
				j.bad("premis-duplicate-id", "the PREMIS event %v is defined twice", k)
			}
			events[k] = true
		}
	}
	for id := range fileDig {
		if _, ok := objs[key{"uuid", id}]; !ok {
			j.bad("premis-missing", "the METS file %s is no object of PREMIS", id)
		}
	}
	names, extra := map[string]int{}, map[string]int{}
	for l, d := range j.state {
		if l == j.docs[0] || l == j.docs[1] || j.schema[l] {
			extra[d]++
		} else {
			names[d]++
		}
	}
	for d, n := range names {
		if count[d] < n {
			j.bad("premis-incomplete", "PREMIS has %d objects with the content %s, the version has %d", count[d], clip(d, 20), n)
		}
	}
	for d, n := range count {
		if n > names[d]+extra[d] && !j.old[d] {
			j.bad("premis-foreign", "PREMIS has %d objects with the content %s, the version has %d", n, clip(d, 20), names[d])
		}
	}
	// events
	type ev struct {
		obj  key
		time int64
	}
	packing := map[ev]bool{}
	for _, e := range p.all("event") {
		ty := e.get("eventType").val()
		tm, err := time.Parse(time.RFC3339, e.get("eventDateTime").val())
		if err != nil {
			j.bad("premis-event-time", "the time of an event is %q", e.get("eventDateTime").val())
		}
		for _, l := range e.all("linkingObjectIdentifier") {
			k := key{l.get("linkingObjectIdentifierType").val(), l.get("linkingObjectIdentifierValue").val()}
			if _, ok := objs[k]; !ok {
				j.bad("premis-undefined-object", "an event (%s) refers to the undefined object %v", ty, k)
			}
			if ty == "packing" {
				packing[ev{k, tm.Unix()}] = true
			}
		}
		var linked []string
		for _, l := range e.all("linkingAgentIdentifier") {
			k := key{l.get("linkingAgentIdentifierType").val(), l.get("linkingAgentIdentifierValue").val()}
			n, ok := agents[k]
			if !ok {
				j.bad("premis-undefined-agent", "an event (%s) refers to the undefined agent %v", ty, k)
			}
			linked = append(linked, k.v, n)
		}
		if ty == "packing" {
			// the user of a version of that time
			ok := false
			for _, v := range j.inv.Versions {
				c, err := time.Parse(time.RFC3339, v.Created)
				if err != nil || c.Unix() != tm.Unix() {
					continue
				}
				if v.User == nil || v.User.Name == "" && v.User.Address == "" {
					ok = true
					break
				}
				for _, x := range linked {
					if x == strings.TrimSpace(xmlSafe(v.User.Address)) || x == strings.TrimSpace(xmlSafe(v.User.Name)) {
						ok = true
					}
				}
			}
			if !ok {
				j.bad("premis-event", "the packing event of %v has no version with this time and agent %q", tm, linked)
			}
		}
	}
	// each file was packed by the versions it is part of
	var vers []string
	for v := range j.inv.Versions {
		if vnum(v) <= vnum(j.ver) {
			vers = append(vers, v)
		}
	}
	sort.Strings(vers)
	for k, d := range objs {
		if d == "" || j.old[d] || names[d] == 0 {
			continue
		}
		want := map[int64]bool{}
		for _, v := range vers {
			for l, x := range j.inv.logical(v) {
				if x == d && !(j.schema[l] && v == j.ver) {
					c, _ := time.Parse(time.RFC3339, j.inv.Versions[v].Created)
					want[c.Unix()] = true
				}
			}
		}
		got := map[int64]bool{}
		for e := range packing {
			if e.obj == k {
				got[e.time] = true
			}
		}
		if fmt.Sprint(sortedInts(want)) != fmt.Sprint(sortedInts(got)) {
			j.bad("premis-packing", "object %v is part of the versions of %v and has packing events of %v", k, sortedInts(want), sortedInts(got))
		}
	}
}

func sortedInts(m map[int64]bool) []int64 {
	r := []int64{}
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func vnum(v string) int {
	n, _ := strconv.Atoi(strings.TrimLeft(strings.TrimPrefix(v, "v"), "0"))
	return n
}

// ---- configurations and histories -----------------------------------------

// metsCfg is a random configuration with METS
func metsCfg(rng *rand.Rand, dir string) (*Cfg, *metsSpec) {
	c := richCfg(rng, dir)
	var o []ExtSpec
	metaName := ""
	for _, e := range c.Obj {
		switch e.Name {
		case mgrName, "initial":
			continue
		case "NNNN-content-subpath":
			if rng.Intn(3) == 0 {
				c.Areas["sp&<é>"] = pick(rng, []string{"sp &<x>", "x/z"})
				e = csp(c.Areas)
			}
		case "NNNN-metafile":
			if strings.EqualFold(e.Cfg["storageType"].(string), "area") {
				metaName = e.Cfg["name"].(string)
			}
		}
		o = append(o, e)
	}
	m := &metsSpec{
		Mets:   pick(rng, []string{"mets.xml", "mets.xml", "METS & <co>.xml", "m%41 é#1.xml"}),
		Premis: pick(rng, []string{"premis.xml", "premis.xml", "p?r=e&m:is.xml", "p \"1\".xml"}),
	}
	types := []string{"extension"}
	if c.Areas != nil {
		types = []string{"area", "area", "path", "extension"}
	}
	m.Type = pick(rng, types)
	switch m.Type {
	case "area":
		m.Name = pick(rng, []string{"metadata", "metadata", "extra", "content"})
	case "path":
		m.Name = pick(rng, []string{"metadata", "m/n"})
	default:
		m.Name = pick(rng, []string{"metadata", "m/n", "."})
		if rng.Intn(3) == 0 {
			m.Mets, m.Premis = "mets_%s.xml", "premis_%s.xml"
		}
	}
	a, b := m.docs(c)
	if m.Type != "extension" {
		c.Derived = append(c.Derived, a, b)
		for _, n := range []string{"mets", "premis", "xlink"} {
			c.Derived = append(c.Derived, path.Join(path.Dir(a), "schemas", n+".xsd"))
		}
	}
	primary := ""
	ty := pick(rng, []string{"mods", "info", "EAD", "x&y"})
	switch rng.Intn(4) {
	case 0: // none
	case 1:
		primary = ty + ":" + pick(rng, []string{"descr.xml", "sub/de scr&.xml"})
		m.Primary = c.logical("content", primary[len(ty)+1:])
	default:
		if c.Areas != nil {
			if metaName != "" {
				primary = ty + ":metadata:" + metaName
				m.Primary = c.logical("metadata", metaName)
			} else {
				ar := pick(rng, []string{"metadata", "extra"})
				n := pick(rng, []string{"descr.xml", "sub/de scr&.xml"})
				primary = ty + ":" + ar + ":" + n
				m.Primary = c.logical(ar, n)
			}
		}
	}
	e := ext("NNNN-mets", "storageType", m.Type, "storageName", m.Name, "primaryDescriptiveMetadata", primary, "metsFile", m.Mets, "premisFile", m.Premis)
	if primary != "" && rng.Intn(4) == 0 {
		e.Cfg["primaryDescriptiveMetadata"] = "ead:metadata:none.xml"
		c.Params["ext-NNNN-mets-descriptive-metadata"] = primary
	}
	l := []string{"NNNN-indexer", "NNNN-metafile", "NNNN-filesystem", "NNNN-content-subpath"}
	rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	srt := map[string][]string{"ObjectChange": append(l, "NNNN-mets")}
	if c.Clean {
		srt["ObjectContentPath"] = []string{"NNNN-direct-clean-path-layout", "NNNN-content-subpath"}
	}
	c.Obj = append(append(o, e), mgrSpecs(srt, nil)...)
	c.Label += "+mets/" + m.Type + "/" + m.Name
	if primary != "" {
		c.Label += "+primary" + strconv.Itoa(strings.Count(primary, ":"))
	}
	return c, m
}

// metsUpd makes the next update; it keeps the primary descriptive metadata and adds metadata files
func (w *World) metsUpd(id string, m *metsSpec) *Upd {
	u := w.genUpd(id, HistOpt{Odd: true, Ops: true, Noop: true, Mixed: true})
	rng, c := w.rng, w.cfg
	cur := map[string][]byte{}
	if o := w.objs[id]; o != nil {
		cur = o.head()
	}
	put := func(l string, b []byte) {
		area, n := "", l
		best := -1
		for a, p := range c.Areas {
			if strings.HasPrefix(l, p+"/") && len(p) > best {
				best, area, n = len(p), a, l[len(p)+1:]
			}
		}
		u.Ops = append(u.Ops, Op{Kind: pick(rng, []string{"data", "reader"}), Area: area, Path: n, Data: b})
	}
	if c.Areas != nil && !u.Echo {
		for rng.Intn(2) == 0 {
			n := pick(rng, []string{"note.txt", "schemas/my.xsd", "a b&c.xml", "100%41.xml", "q?x#y", "x:y", "sub/deep.bin", "d\x01e.txt", "tab\tx", "nl\nx", "e\u0301.txt"})
			b := genContent(rng)
			if len(cur) > 0 && rng.Intn(3) == 0 {
				b = cur[pick(rng, sortedKeys(cur))]
			}
			put(c.logical(pick(rng, []string{"metadata", "metadata", "extra", "content"}), n), b)
		}
	}
	var ops []Op
	for _, op := range u.Ops {
		if (op.Kind == "delete" || op.Kind == "rename") && (op.Path == m.Primary || op.To == m.Primary) {
			continue
		}
		ops = append(ops, op)
	}
	u.Ops = ops
	if m.Primary != "" && !c.derived(m.Primary) {
		have := modelApply(c, cur, u)
		if _, ok := have[m.Primary]; !ok || rng.Intn(8) == 0 {
			put(m.Primary, []byte(fmt.Sprintf("<mods>%d</mods>", rng.Intn(5))))
		}
	}
	w.repair(u, cur)
	return u
}

// migEvents compares the migration events with the records of the migrations
func (j *metsJudge) migEvents(recs map[string]drec) int {
	if j.pdoc == nil {
		return 0
	}
	n := 0
	told := map[string]bool{}
	for _, e := range j.pdoc.all("event") {
		if e.get("eventType").val() != "migration" {
			continue
		}
		n++
		out, src := map[string]bool{}, map[string]bool{}
		for _, l := range e.all("linkingObjectIdentifier") {
			d := j.objs[[2]string{l.get("linkingObjectIdentifierType").val(), l.get("linkingObjectIdentifierValue").val()}]
			switch l.get("linkingObjectRole").val() {
			case "outcome":
				out[d] = true
			case "source":
				src[d] = true
			default:
				j.bad("migration-role", "a migration event has an object in the role %q", l.get("linkingObjectRole").val())
			}
		}
		var agents []string
		for _, l := range e.all("linkingAgentIdentifier") {
			agents = append(agents, l.get("linkingAgentIdentifierValue").val())
		}
		res := e.get("eventOutcomeInformation", "eventOutcome").val()
		if res != "success" && res != "fail" || res == "success" && len(out) != 1 || res == "fail" && len(out) != 0 {
			j.bad("migration-outcome", "a migration event has the outcome %q with %d objects", res, len(out))
			continue
		}
		// there must be a record saying that
		ok := false
		for s, r := range recs {
			if (r.Err == "") != (res == "success") || r.Err == "" && !out[r.D] || !strings.Contains(" "+strings.Join(agents, " ")+" ", " "+xmlSafe(r.ID)+" ") {
				continue
			}
			if len(src) > 0 && !src[s] || len(src) > 1 {
				continue
			}
			if r.Err != "" && strings.Join(strings.Fields(xmlSafe(r.Err)), " ") != strings.Join(strings.Fields(e.get("eventOutcomeInformation", "eventOutcomeDetail", "eventOutcomeDetailNote").val()), " ") {
				continue
			}
			inState := false
			for l, x := range j.state {
				inState = inState || x == s && !j.isDoc(l)
			}
			if inState && len(src) == 0 {
				continue
			}
			ok = true
			told[s] = true
		}
		if !ok {
			j.bad("migration-event", "a migration event (%s by %q, source %v, outcome %v) is not recorded: %v", res, agents, clipKeys(src), clipKeys(out), recs)
		}
	}
	made := map[string]bool{}
	for _, r := range recs {
		made[r.D] = r.Err == ""
	}
	for s, r := range recs {
		// of a derivative its own making is reported
		if told[s] || r.Err != "" && made[s] {
			continue
		}
		for l, x := range j.state {
			if a, _ := j.area(l); a == "metadata" || j.isDoc(l) {
				continue
			}
			if r.Err == "" && x == r.D || r.Err != "" && x == s {
				j.bad("migration-missing", "the recorded migration %+v of %s has no event, though %q is part of the version", r, clip(s, 12), l)
				break
			}
		}
	}
	return n
}

func (j *metsJudge) isDoc(l string) bool { return l == j.docs[0] || l == j.docs[1] || j.schema[l] }

func clipKeys(m map[string]bool) (r []string) {
	for _, k := range sortedKeys(m) {
		r = append(r, clip(k, 12))
	}
	return
}

// metsMigrations: documents of objects with migrations and thumbnails
func metsMigrations(r *Run, i int, tool string) {
	rng := r.Rng("metsmig", i)
	d := newDcase(r, rng, i)
	c := d.cfg
	m := &metsSpec{Mets: "mets.xml", Premis: "premis.xml", Type: "extension", Name: "metadata"}
	if c.Areas != nil {
		m.Type = pick(rng, []string{"area", "area", "path", "extension"})
	}
	if m.Type == "extension" && rng.Intn(2) == 0 {
		m.Mets, m.Premis = "mets_%s.xml", "premis_%s.xml"
	}
	d.place["NNNN-mets"] = [2]string{m.Type, m.Name}
	var o []ExtSpec
	for _, e := range c.Obj {
		if e.Name != mgrName && e.Name != "initial" {
			o = append(o, e)
		}
	}
	l := []string{"NNNN-content-subpath", "NNNN-indexer", "NNNN-migration", "NNNN-thumbnail"}
	if rng.Intn(2) == 0 {
		l[2], l[3] = l[3], l[2]
	}
	srt := map[string][]string{"ObjectChange": append(l, "NNNN-mets")}
	if c.Clean {
		srt["ObjectContentPath"] = []string{"NNNN-direct-clean-path-layout", "NNNN-content-subpath"}
	}
	o = append(o, ext("NNNN-mets", "storageType", m.Type, "storageName", m.Name, "primaryDescriptiveMetadata", "", "metsFile", m.Mets, "premisFile", m.Premis))
	c.Obj = append(o, mgrSpecs(srt, nil)...)
	c.Label += "+mets/" + m.Type
	var err error
	d.w, err = newWorld(r, rng, c, fmt.Sprintf("mm%d", i))
	w := d.w
	defer w.done()
	if err != nil {
		w.violate("init-error:"+errSummary(err), "a legitimate storage root cannot be initialised: "+err.Error())
		return
	}
	w.log = append(w.log, fmt.Sprintf("migrations %s", jsonOf(d.mig)), fmt.Sprintf("thumbnails %s", jsonOf(d.th)))
	d.id = "urn:m:" + fmt.Sprint(i)
	judged := 0
	for k := 2 + rng.Intn(3); k > 0 && !w.bad; k-- {
		if err := d.session(tool); err != nil {
			w.violate("session:"+errSummary(err), "the storage root cannot be loaded: "+err.Error())
			return
		}
		u := d.genUpd()
		for t := 0; t < 20 && !d.fits(u); t++ {
			u = d.genUpd()
		}
		if !d.fits(u) {
			continue
		}
		err, p := Guard(func() error { return w.env.update(d.id, u) })
		w.log = append(w.log, fmt.Sprintf("migration %v, thumbnail %v: %s", d.migOn, d.thOn, describe(d.id, u)))
		if p != "" {
			w.violate("op-panic:"+panicSite(p), "an update panicked: "+p)
			return
		}
		if err != nil {
			w.violate("op-error:"+errSummary(err), "a legitimate update failed: "+err.Error())
			return
		}
		r.Count("updates_executed", 1)
		after := readTree(w.dir)
		ps := findObjects(after)[d.id]
		if len(ps) != 1 {
			w.violate("object", fmt.Sprintf("the object is found at %v", ps))
			return
		}
		d.obj = ps[0]
		inv, err := d.inv(after)
		if err != nil {
			w.violate("inventory", err.Error())
			return
		}
		recs, err := d.records(after, inv)
		if err != nil {
			w.violate("records", "the records of migrations cannot be understood: "+err.Error())
			return
		}
		head := vnum(inv.Head)
		t := after.sub(d.obj)
		for v := d.vers + 1; v <= head; v++ {
			if v < head && m.Type == "extension" && !strings.Contains(m.Mets, "%s") {
				continue // replaced by the documents of the head
			}
			ver := fmt.Sprintf("v%d", v)
			j := newMetsJudge(c, m, t, inv, ver, func(key, f string, a ...any) {
				w.violate(key, fmt.Sprintf("%q %s: ", d.id, ver)+fmt.Sprintf(f, a...))
			})
			j.judge()
			judged++
			r.Count("document_pairs_judged", 1)
			r.Count("files_in_documents", j.files)
			r.Count("formats_compared", j.formats)
			r.Count("creation_times_compared", j.times)
			if v == head {
				r.Count("migration_events_judged", j.migEvents(recs))
				r.Count("documents_of_migrated_objects", min(1, len(recs)))
			}
		}
		d.vers = head
		st, err := d.stateOf(after, inv.Head)
		if err != nil {
			w.violate("state", err.Error())
			return
		}
		d.state = d.pure(st)
	}
	r.Case(c.Label, judged > 0)
}

func c27(r *Run) {
	tool := filepath.Join(r.Scratch, "tool.sh")
	if err := os.WriteFile(tool, []byte(toolScript), 0755); err != nil {
		r.Violate("harness", err.Error(), nil)
		return
	}
	r.Assume = []string{"METS is the last extension of the update chain, as its documentation demands", "a reference is reachable when it names the file literally or as a relative URL", "documents of earlier versions may be listed with their place in the object"}
	r.Parallel(r.N(260, 4000), func(i int) {
		rng := r.Rng("mets", i)
		c, m := metsCfg(rng, r.Scratch)
		w, err := newWorld(r, rng, c, fmt.Sprintf("mets%d", i))
		defer w.done()
		if err != nil {
			w.violate("init-error:"+errSummary(err), "a legitimate storage root cannot be initialised: "+err.Error())
			return
		}
		w.slow = i%10 == 0
		ids := []string{w.newID(0)}
		if rng.Intn(3) == 0 {
			ids = append(ids, w.newID(1))
		}
		judged := 0
		for k := 2 + rng.Intn(5); k > 0 && !w.bad; k-- {
			id := pick(rng, ids)
			if rng.Intn(2) == 0 {
				if err := w.reload(); err != nil {
					w.violate("reload-error:"+errSummary(err), "the storage root cannot be loaded again: "+err.Error())
					return
				}
			}
			u := w.metsUpd(id, m)
			if len(u.Ops) == 0 {
				continue
			}
			s := w.step(id, u)
			r.Count("updates_executed", 1)
			if w.opFailed(s) {
				return
			}
			if s.NewVersion == "" {
				continue
			}
			t := s.After.sub(s.Obj.Path)
			inv, err := readInv(t["inventory.json"])
			if err != nil {
				w.violate("inventory", err.Error())
				return
			}
			j := newMetsJudge(c, m, t, inv, s.NewVersion, func(key, f string, a ...any) {
				w.violate(key, fmt.Sprintf("%q %s: ", id, s.NewVersion)+fmt.Sprintf(f, a...))
			})
			j.judge()
			judged++
			r.Count("document_pairs_judged", 1)
			r.Count("files_in_documents", j.files)
			r.Count("formats_compared", j.formats)
			r.Count("creation_times_compared", j.times)
		}
		r.Case(c.Label, judged > 0)
		r.Sample(map[string]any{"config": c.Label, "history": first(w.log, 4)})
	})
	r.Parallel(r.N(160, 2500), func(i int) { metsMigrations(r, i, tool) })
}
