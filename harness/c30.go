package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"time"

	btoml "github.com/BurntSushi/toml"
	"github.com/je4/gocfl/v2/pkg/ocfl"
	"gopkg.in/yaml.v2"
)

func init() {
	register("C30", "exploration", "random storage modes, schemas (stored, downloaded), document formats, sources (path, file and http addresses, with object id) and histories with documents that satisfy the schema by construction, break one rule of it, or cannot be read; non-trivial when the metafile extension stored or refused at least one document; the stored document is compared with the value it was rendered from, the object after a refused update with its snapshot", c30)
}

const c30Schema = `{
 "$schema": "https://json-schema.org/draft/2020-12/schema",
 "type": "object",
 "required": ["title", "id"],
 "additionalProperties": false,
 "properties": {
  "title": {"type": "string", "minLength": 1},
  "id": {"type": "string", "pattern": "^[a-z0-9:-]+$"},
  "year": {"type": "integer", "minimum": 0, "maximum": 3000},
  "kind": {"enum": ["book", "map", 7]},
  "tags": {"type": "array", "minItems": 1, "uniqueItems": true, "items": {"type": "string"}},
  "persons": {"type": "array", "items": {"$ref": "#/$defs/person"}},
  "size": {"type": "number", "exclusiveMinimum": 0},
  "published": {"type": "boolean"},
  "nested": {"type": "object"}
 },
 "$defs": {"person": {"type": "object", "required": ["name"], "properties": {"name": {"type": "string"}, "roles": {"type": "array", "items": {"type": "string"}}}}}
}`

// genDoc is a document that satisfies the schema
func genDoc(rng *rand.Rand) map[string]any {
	str := func() string {
		return pick(rng, []string{"A title", "Über <b>&amp;</b>", "\u2028 line\nbreak", "日本", "yes", "1984", "~", "- x: y", "\"quoted\" \\ back", " blank ", "null", "2020-01-01", "é\u0301\t"})
	}
	d := map[string]any{"title": str() + fmt.Sprint(rng.Intn(1000)), "id": pick(rng, []string{"a", "a-b:c", "0123", "null"})}
	opt := func(k string, v any) {
		if rng.Intn(2) == 0 {
			d[k] = v
		}
	}
	opt("year", int64(rng.Intn(3001)))
	opt("kind", pick(rng, []any{"book", "map", int64(7)}))
	var tags []any
	for i := rng.Intn(4); i >= 0; i-- {
		tags = append(tags, fmt.Sprint(str(), i))
	}
	opt("tags", tags)
	var persons []any
	for i := rng.Intn(3); i > 0; i-- {
		p := map[string]any{"name": str()}
		if rng.Intn(2) == 0 {
			p["roles"] = []any{str(), str()}
		}
		persons = append(persons, p)
	}
	if len(persons) > 0 {
		opt("persons", persons)
	}
	opt("size", pick(rng, []any{0.5, int64(12), 1e21, 1.25e-7, int64(9007199254740993), int64(9223372036854775807)}))
	opt("published", rng.Intn(2) == 0)
	opt("nested", map[string]any{"a": []any{int64(1), int64(-9007199254740993)}, "b c": map[string]any{"x": str(), "deep": []any{map[string]any{"k": "v"}}}, "f": false, "Ä": 1.5})
	return d
}

// breakDoc breaks one rule of the schema
func breakDoc(rng *rand.Rand, d map[string]any) (any, string) {
	type m struct {
		name string
		f    func()
	}
	ms := []m{
		{"required-title", func() { delete(d, "title") }},
		{"required-id", func() { delete(d, "id") }},
		{"title-type", func() { d["title"] = int64(12) }},
		{"title-empty", func() { d["title"] = "" }},
		{"id-pattern", func() { d["id"] = pick(rng, []string{"Upper", "a b", "", "ü", "a\nb"}) }},
		{"year-type", func() { d["year"] = "1984" }},
		{"year-float", func() { d["year"] = 1984.5 }},
		{"year-min", func() { d["year"] = int64(-1) }},
		{"year-max", func() { d["year"] = int64(3001) }},
		{"kind-enum", func() { d["kind"] = "Book" }},
		{"tags-empty", func() { d["tags"] = []any{} }},
		{"tags-unique", func() { d["tags"] = []any{"x", "y", "x"} }},
		{"tags-items", func() { d["tags"] = []any{"x", int64(1)} }},
		{"tags-type", func() { d["tags"] = "x" }},
		{"person-name", func() { d["persons"] = []any{map[string]any{"name": "a"}, map[string]any{"nam": "b"}} }},
		{"person-role", func() { d["persons"] = []any{map[string]any{"name": "a", "roles": []any{true}}} }},
		{"size-minimum", func() { d["size"] = int64(0) }},
		{"boolean", func() { d["published"] = "true" }},
		{"additional", func() { d["Title"] = "x" }},
		{"nested-type", func() { d["nested"] = []any{"x"} }},
	}
	x := pick(rng, ms)
	x.f()
	return d, x.name
}

// renderDoc writes a document in one of the formats
func renderDoc(rng *rand.Rand, v any, format string) ([]byte, bool) {
	switch format {
	case ".json":
		b, err := json.MarshalIndent(v, "", pick(rng, []string{"", " ", "\t"}))
		if err != nil {
			panic(err)
		}
		if rng.Intn(3) == 0 {
			b = append([]byte("\r\n "), append(b, "\n\n"...)...)
		}
		return b, true
	case ".yaml":
		b, err := yaml.Marshal(v)
		if err != nil {
			return nil, false
		}
		// the writer must be able to read it back
		var x any
		if yaml.Unmarshal(b, &x) != nil || !sameValue(plainValue(x), v) {
			return nil, false
		}
		if rng.Intn(2) == 0 {
			b = append([]byte("---\n# comment\n"), b...)
		}
		return b, true
	case ".toml":
		var buf bytes.Buffer
		if err := btoml.NewEncoder(&buf).Encode(v); err != nil {
			return nil, false
		}
		var x map[string]any
		if _, err := btoml.Decode(buf.String(), &x); err != nil || !sameValue(plainValue(x), v) {
			return nil, false
		}
		return buf.Bytes(), true
	}
	return nil, false
}

// plainValue turns maps and lists of other types into map[string]any and []any
func plainValue(v any) any {
	switch v := v.(type) {
	case map[any]any:
		m := map[string]any{}
		for k, x := range v {
			m[fmt.Sprint(k)] = plainValue(x)
		}
		return m
	case map[string]any:
		m := map[string]any{}
		for k, x := range v {
			m[k] = plainValue(x)
		}
		return m
	case []map[string]any:
		l := []any{}
		for _, x := range v {
			l = append(l, plainValue(x))
		}
		return l
	case []any:
		l := []any{}
		for _, x := range v {
			l = append(l, plainValue(x))
		}
		return l
	}
	return v
}

// sameValue compares documents; numbers by their value
func sameValue(a, b any) bool {
	num := func(v any) *big.Rat {
		var s string
		switch v := v.(type) {
		case json.Number:
			s = v.String()
		case float64, int, int64, uint64:
			s = fmt.Sprint(v)
		default:
			return nil
		}
		r, ok := new(big.Rat).SetString(s)
		if !ok {
			return nil
		}
		return r
	}
	switch x := a.(type) {
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !sameValue(v, w) {
				return false
			}
		}
		return true
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameValue(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	if n, m := num(a), num(b); n != nil || m != nil {
		return n != nil && m != nil && n.Cmp(m) == 0
	}
	return a == b
}

func parseDoc(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("more than one value")
	}
	return v, nil
}

// docServer delivers documents
type docServer struct {
	mu    sync.Mutex
	pages map[string]docPage
	addr  string
	srv   *http.Server
	asked int
}
type docPage struct {
	status int
	body   []byte
	cut    bool // the connection ends early
}

func newDocServer() *docServer {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &docServer{pages: map[string]docPage{}, addr: l.Addr().String()}
	s.srv = &http.Server{Handler: s}
	go s.srv.Serve(l)
	return s
}

func (s *docServer) set(p string, d docPage) {
	s.mu.Lock()
	s.pages[p] = d
	s.mu.Unlock()
}

func (s *docServer) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	s.mu.Lock()
	d, ok := s.pages[q.URL.Path]
	s.asked++
	s.mu.Unlock()
	if !ok {
		w.WriteHeader(404)
		// an error page that would pass as document
		fmt.Fprint(w, `{"title":"not found","id":"error"}`)
		return
	}
	if d.cut {
		w.Header().Set("Content-Length", fmt.Sprint(len(d.body)+100))
	}
	if d.status != 0 {
		w.WriteHeader(d.status)
	}
	w.Write(d.body)
}

// mcase is one storage root with the metafile extension
type mcase struct {
	r               *Run
	rng             *rand.Rand
	cfg             *Cfg
	tmp, dir        string
	srv             *docServer
	st, sn, name    string
	label           string
	log             []string
	bad             bool
	stored, refused int
	objs            map[string]*mdoc
	again           *reuse
}

// reuse continues with the object instance of the update before; its source is a file
type reuse struct {
	env              *Env
	id, file, format string
	cfg              Cfg
	src              string
}
type mdoc struct {
	path  string
	given map[string]any // version -> document
	last  any            // document given last
}

func (c *mcase) violate(key, f string, a ...any) {
	c.bad = true
	c.r.Violate(key, fmt.Sprintf(f, a...)+"\n    "+c.label+"\n    history: "+strings.Join(c.log, "\n             "), map[string]any{"config": c.cfg, "history": c.log})
}

func c30(r *Run) {
	srv := newDocServer()
	defer srv.srv.Close()
	n := r.N(220, 5000)
	r.Parallel(n, func(i int) {
		rng := r.Rng("c30", i)
		c := &mcase{r: r, rng: rng, srv: srv, objs: map[string]*mdoc{}, tmp: filepath.Join(r.Scratch, fmt.Sprintf("c30-%d", i))}
		os.MkdirAll(c.tmp, 0755)
		defer os.RemoveAll(c.tmp)
		c.setup(i)
		if !c.bad {
			for k := 4 + rng.Intn(5); k > 0 && !c.bad; k-- {
				c.step(i)
			}
		}
		r.Case(c.label, c.stored+c.refused > 0)
	})
	srv.mu.Lock()
	r.Count("http_requests_served", srv.asked)
	srv.mu.Unlock()
}

func (c *mcase) setup(i int) {
	rng := c.rng
	c.dir = filepath.Join(c.tmp, "root")
	cfg := &Cfg{Ver: pick(rng, []string{"1.0", "1.1"}), Digest: pick(rng, []string{"sha512", "sha256"}), Dedup: rng.Intn(3) != 0, Params: map[string]string{}}
	lay, name := layoutSpecs(rng)
	for name != "0003" && name != "0004" {
		lay, name = layoutSpecs(rng)
	}
	cfg.Layout, cfg.LayoutSpec = name, lay
	cfg.Root = []ExtSpec{lay}
	types := []string{"path", "extension"}
	if rng.Intn(2) == 0 {
		cfg.Areas = map[string]string{"content": "data", "metadata": "meta", "extra": "x/y"}
		if rng.Intn(3) == 0 {
			cfg.Areas["content"] = ""
			delete(cfg.Areas, "content")
			cfg.Areas["content"] = "c/d"
		}
		cfg.Obj = append(cfg.Obj, csp(cfg.Areas))
		types = append(types, "area", "area")
	}
	if rng.Intn(3) == 0 {
		cfg.Obj = append(cfg.Obj, ext("NNNN-direct-clean-path-layout", "maxPathnameLen", 32000, "maxPathSegmentLen", 127, "replacementString", "_", "whitespaceReplacementString", "_", "utfEncode", rng.Intn(2) == 0,
			"fallbackFolder", "fallback", "fallbackTupleSize", 1, "numberOfFallbackTuples", 0))
	}
	c.st = pick(rng, types)
	switch c.st {
	case "area":
		c.sn = pick(rng, []string{"metadata", "extra", "content"})
	case "path":
		c.sn = pick(rng, []string{"", "metadata", "a b/c"})
	case "extension":
		c.sn = pick(rng, []string{"", "metadata", "a/b"})
	}
	c.name = pick(rng, []string{"info.json", "info.json", "meta data.json", "über.json", "sub/info.json", ""})
	st := c.st
	if rng.Intn(4) == 0 {
		st = pick(rng, []string{strings.ToUpper(st), strings.ToUpper(st[:1]) + st[1:]})
	}
	e := ext("NNNN-metafile", "storageType", st, "storageName", c.sn)
	if c.name != "" {
		e.Cfg["name"] = c.name
	} else {
		c.name = "info.json" // the documented default
	}
	how := rng.Intn(3)
	if how != 0 {
		n := pick(rng, []string{"schema.json", "my schema-1.0.json"})
		e.Cfg["schema"] = n
		e.Files = map[string]string{n: c30Schema}
	}
	sp := fmt.Sprintf("/schema/%d/s.json", i)
	if how != 1 {
		e.Cfg["schemaUrl"] = "http://" + c.srv.addr + sp
		c.srv.set(sp, docPage{body: []byte(c30Schema)})
	}
	cfg.Obj = append(cfg.Obj, e)
	if rng.Intn(2) == 0 {
		cfg.Obj = append(cfg.Obj, mgrSpecs(nil, nil)...)
	}
	cfg.Label = fmt.Sprintf("%s/%s/%s areas=%v", cfg.Ver, cfg.Digest, cfg.Layout, cfg.Areas != nil)
	c.cfg = cfg
	c.label = fmt.Sprintf("metafile storageType=%s storageName=%q schema=%s", st, c.sn, []string{"by url", "by file", "both"}[how])
	if how == 0 && rng.Intn(3) == 0 {
		// a schema that cannot be loaded: no objects without it
		c.srv.set(sp, docPage{status: pick(rng, []int{404, 500}), body: []byte("{}")})
		f := filepath.Join(c.tmp, "first.json")
		os.WriteFile(f, []byte(`{"title":"t","id":"a"}`), 0644)
		ucfg := *cfg
		ucfg.Params = map[string]string{"ext-NNNN-metafile-source": f}
		e, err := createRoot(c.dir, &ucfg, nil)
		if err == nil {
			err = e.update("first", &Upd{Msg: "m", User: "u", Addr: "a", Ops: []Op{{Kind: "folder", Src: map[string][]byte{"x": []byte("x")}}}})
		}
		if err == nil {
			c.violate("schema-unreachable", "an object is created without its metadata file, the schema cannot be loaded")
			return
		}
		c.r.Count("unreachable_schemas", 1)
		c.srv.set(sp, docPage{body: []byte(c30Schema)})
		os.RemoveAll(c.dir)
	}
	if _, err := createRoot(c.dir, cfg, nil); err != nil {
		c.violate("create-root", "%v", err)
	}
}

// where the document has to be: logical path in the state, or path in the object
func (c *mcase) place() (logical, file string) {
	switch c.st {
	case "area":
		return path.Join(c.cfg.Areas[c.sn], c.name), ""
	case "path":
		return path.Join(c.cfg.Areas["content"], c.sn, c.name), ""
	}
	return "", path.Join("extensions/NNNN-metafile", c.sn, c.name)
}

// source makes the document available and returns the parameter
func (c *mcase) source(i int, id string, format string, body []byte, fault string) string {
	rng := c.rng
	base := pick(rng, []string{"meta", "my meta", "ünï", "a.b"})
	if rng.Intn(3) == 0 {
		format = strings.ToUpper(format)
	}
	if fault == "address" {
		return pick(rng, []string{"/tmp/100%.json", "file:///tmp/%zz.json", "ftp://127.0.0.1/x.json", "http://[::1/x.json", "s3://bucket/x.json"})
	}
	if fault == "suffix" {
		format = pick(rng, []string{".txt", "", ".xml", ".jsonx"})
	}
	withID := rng.Intn(3) == 0
	n := base + format
	param := n
	if withID {
		param = pick(rng, []string{"$ID", "x-$ID", "$ID/$ID"}) + format
		n = strings.ReplaceAll(param, "$ID", id)
	}
	enc := func(s string) string { return strings.ReplaceAll((&url.URL{Path: s}).EscapedPath(), "%24", "$") }
	simple := !strings.ContainsAny(id, "?#% ") || !withID
	if simple && rng.Intn(3) == 0 {
		p := fmt.Sprintf("/doc/%d/%d/", i, rng.Int63())
		page := docPage{body: body}
		switch fault {
		case "absent":
			page.status = pick(rng, []int{404, 410, 500, 503, 403})
			page.body = []byte(`{"title":"error","id":"error"}`)
		case "unreadable":
			page.cut = true
		}
		c.srv.set(p+n, page)
		host := c.srv.addr
		if fault == "absent" && rng.Intn(4) == 0 {
			host = "127.0.0.1:1" // nobody listens
		}
		return "http://" + host + enc(p+param)
	}
	dir := filepath.Join(c.tmp, fmt.Sprintf("s%d", rng.Int63()))
	f := filepath.Join(dir, n)
	os.MkdirAll(filepath.Dir(f), 0755)
	switch fault {
	case "absent":
		if rng.Intn(2) == 0 {
			os.Symlink("/nonexistent/gocfl/meta.json", f)
		}
	case "unreadable":
		os.Mkdir(f, 0755)
	default:
		os.WriteFile(f, body, 0644)
		c.again = &reuse{id: id, file: f, format: strings.ToLower(format)}
	}
	p := filepath.Join(dir, param)
	switch rng.Intn(2) {
	case 0:
		return "file://" + enc(p)
	}
	return enc(p)
}

func (c *mcase) step(i int) {
	rng := c.rng
	ids := []string{"a", "id:x-1", "http://example.org/x y?z#1", "urn:ü", "100%"}
	id := pick(rng, ids[:2+rng.Intn(4)])
	o := c.objs[id]
	cfg := *c.cfg
	cfg.Params = map[string]string{}
	want, fault := any(nil), ""
	var doc any
	format := pick(rng, []string{".json", ".json", ".yaml", ".toml"})
	re := c.again
	c.again = nil
	if re != nil && (re.env == nil || rng.Intn(2) == 0) {
		re = nil
	}
	if re != nil {
		id, format = re.id, re.format
		o = c.objs[id]
	}
	d := genDoc(rng)
	doc = d
	switch rng.Intn(12) {
	case 0, 1, 2:
		doc, fault = breakDoc(rng, d)
		fault = "schema-" + fault
	case 3:
		fault = pick(rng, []string{"absent", "unreadable"})
	case 4:
		fault = pick(rng, []string{"suffix", "syntax", "address"})
	case 5:
		fault = "none"
	case 6:
		// the same again
		if o != nil && o.last != nil {
			doc = o.last
		}
	case 7:
		// another version of it, with a rare value
		d["title"] = strings.Repeat("long ", 1+rng.Intn(20000))
	}
	if re != nil && fault != "syntax" && !strings.HasPrefix(fault, "schema") {
		fault = ""
	}
	body, ok := renderDoc(rng, doc, format)
	if !ok {
		if re != nil {
			return
		}
		format = ".json"
		body, _ = renderDoc(rng, doc, format)
	}
	if fault == "syntax" {
		switch format {
		case ".json":
			body = pick(rng, [][]byte{body[:len(body)*2/3], append(append([]byte{}, body...), "}"...), append(append([]byte{}, body...), body...), {}, []byte("title: x\nid: a\n")})
			body = bytes.TrimRight(body, "\n\r ")
			if bytes.HasSuffix(body, []byte("}")) && json.Valid(body) {
				body = body[:len(body)-1]
			}
		case ".yaml":
			body = pick(rng, [][]byte{[]byte("title: [a\nid: {"), {}, []byte("title: a\n\tid: b\n"), []byte("\"")})
		case ".toml":
			body = pick(rng, [][]byte{[]byte("title = \n"), []byte("title = \"a\"\nid = \"b\"\ntitle = \"c\"\n"), []byte("= 1"), {}})
		}
	}
	src := ""
	if re != nil {
		if err := os.WriteFile(re.file, body, 0644); err != nil {
			panic(err)
		}
		src, cfg = re.src+" (again on the same instance)", re.cfg
	} else if fault != "none" {
		src = c.source(i, id, format, body, fault)
		cfg.Params["ext-NNNN-metafile-source"] = src
	}
	if fault == "" {
		want = doc
	}
	refuse := fault != "" && (fault != "none" || o == nil)
	u := genUpdHead(rng)
	u.Dedup, u.Echo = cfg.Dedup, o != nil && rng.Intn(3) == 0
	t := map[string][]byte{}
	for k := rng.Intn(4); k > 0; k-- {
		t[pick(rng, []string{"one", "two words", "d/three", "d/e/ü"})] = genContent(rng)
	}
	if o == nil && len(t) == 0 {
		t["one"] = []byte("1")
	}
	area := ""
	if cfg.Areas != nil {
		area = pick(rng, []string{"content", "extra", "metadata"})
	}
	if len(t) > 0 || rng.Intn(2) == 0 {
		u.Ops = []Op{{Kind: "folder", Area: area, Src: t}}
	}
	what := fmt.Sprintf("update %q echo=%v area=%q files=%v source=%q (%s, %s) %s", id, u.Echo, area, sortedKeys(t), src, format, map[bool]string{true: "to be refused: " + fault, false: fault}[refuse], clip(string(body), 300))
	c.log = append(c.log, what)
	before := readTree(c.dir)
	e, err := openRoot(c.dir, &cfg, nil)
	if err != nil {
		c.violate("open", "storage root cannot be opened: %v", err)
		return
	}
	var uerr error
	perr, p := Guard(func() error {
		if re != nil {
			e = re.env
			uerr = e.updateObject(e.Last, u)
		} else {
			uerr = e.update(id, u)
		}
		return nil
	})
	_ = perr
	if p != "" {
		c.violate("panic", "the update panicked: %s", p)
		return
	}
	c.r.Count("updates", 1)
	after := readTree(c.dir)
	if refuse {
		c.refused++
		c.r.Count("refusals_"+strings.SplitN(fault, "-", 2)[0], 1)
		if uerr == nil {
			c.violate("accepted:"+fault, "the update succeeded although its metadata file had to be refused")
			return
		}
		if o != nil {
			if d := diffTrees(before.files(), after.files()); len(d) > 0 {
				c.violate("refused-changed", "the refused update changed the storage root: %v", first(d, 6))
			}
			return
		}
		// nothing of a refused object must look like a committed one
		for k := range after {
			if _, ok := before[k]; !ok && strings.HasSuffix(k, "/inventory.json") {
				c.violate("refused-created", "the refused object has been created: %s", k)
				return
			}
		}
		os.RemoveAll(c.dir)
		if err := writeTree(c.dir, before); err != nil {
			panic(err)
		}
		return
	}
	if uerr != nil {
		c.violate("valid-refused", "the update failed: %v", uerr)
		return
	}
	if c.again != nil {
		c.again.env, c.again.cfg, c.again.src = e, cfg, src
	}
	if re != nil {
		c.r.Count("further_updates_of_an_instance", 1)
	}
	if o == nil {
		o = &mdoc{given: map[string]any{}}
		for k, b := range after {
			if inv, err := readInv(b); path.Base(k) == "inventory.json" && err == nil && inv.ID == id && !strings.Contains(k, "/v1/inv") {
				o.path = path.Dir(k)
			}
		}
		if o.path == "" {
			c.violate("lost", "the object is not in the storage root")
			return
		}
		c.objs[id] = o
	}
	inv, err := readInv(after[o.path+"/inventory.json"])
	if err != nil {
		c.violate("inventory", "%v", err)
		return
	}
	var same bool
	if b, err := readInv(before[o.path+"/inventory.json"]); err == nil && b.Head == inv.Head {
		same = true
	}
	if want != nil {
		c.stored++
		c.r.Count("documents_stored_"+c.st+format, 1)
		o.last = want
		if !same || c.st == "extension" {
			o.given[inv.Head] = want
		}
		if c.st != "extension" {
			o.given[inv.Head] = want
		}
	}
	logical, file := c.place()
	look := func(b []byte, ok bool, want any, where string) bool {
		if !ok {
			c.violate("missing", "the document given for %s is not at its place (%s%s)", where, logical, file)
			return false
		}
		got, err := parseDoc(b)
		if err != nil || !sameValue(got, want) {
			c.violate("changed", "the document stored for %s differs from the one given: %v\n    stored: %s\n    given:  %s", where, err, clip(string(b), 600), clip(fmt.Sprint(want), 600))
			return false
		}
		c.r.Count("documents_compared", 1)
		return true
	}
	if logical != "" {
		for _, v := range sortedKeys(o.given) {
			dig, ok := inv.logical(v)[logical]
			var b []byte
			if ok {
				ok = false
				for d, ps := range inv.Manifest {
					if strings.EqualFold(d, dig) && len(ps) > 0 {
						b, ok = after[o.path+"/"+ps[0]]
					}
				}
			}
			if !look(b, ok, o.given[v], v) {
				return
			}
		}
	} else if o.last != nil {
		b, ok := after[o.path+"/"+file]
		if !look(b, ok, o.last, "the object") {
			return
		}
	}
	// what is reported
	if want == nil && u.Echo && logical != "" {
		return // the document may just have been removed from the head
	}
	report := func(m *ocfl.ObjectMetadata, err error, where string) {
		if err != nil {
			c.violate("report-error", "no metadata of %q (%s): %v", id, where, err)
			return
		}
		b, _ := json.Marshal(m.Extension)
		x, _ := parseDoc(b)
		got, ok := asMap(x)["NNNN-metafile"]
		c.r.Count("reports_compared", 1)
		if !ok || !sameValue(got, o.last) {
			c.violate("report", "the metadata reported for %q (%s) is %s, stored is %s", id, where, clip(fmt.Sprint(got), 500), clip(fmt.Sprint(o.last), 500))
		}
	}
	if o.last == nil {
		return
	}
	guard := func(f func() error, where string) {
		if err, p := Guard(f); p != "" {
			c.violate("report-panic", "metadata (%s): %s", where, p)
		} else if err != nil {
			c.violate("report-error", "metadata (%s): %v", where, err)
		}
	}
	if !same && e.Last != nil {
		guard(func() error { m, err := e.Last.GetMetadata(); report(m, err, "updating instance"); return nil }, "updating instance")
	}
	rcfg := cfg
	rcfg.Params = map[string]string{}
	guard(func() error {
		e, err := openRoot(c.dir, &rcfg, nil)
		if err != nil {
			return err
		}
		o, err := e.SR.LoadObjectByID(id)
		if err != nil {
			return err
		}
		m, err := o.GetMetadata()
		report(m, err, "reloaded")
		return nil
	}, "reloaded")
	if rng.Intn(4) == 0 {
		errs, _, err := validateDir(c.dir, &rcfg, nil)
		if err != nil || len(errs) > 0 {
			c.violate("invalid", "the storage root is not valid: %v %v", errs, err)
		}
	}
}

var _ = time.Now
