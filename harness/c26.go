package main

// The viewer serves the right bytes, lists what exists and nothing else.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"html"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() {
	register("C26", "exploration", "storage roots of random histories (odd identifiers and file names, areas, extensions with files) served by the real server on a loopback address; listings are parsed and compared with inventories, every link is followed, downloads compared byte by byte, requests for anything else and requests leading outside must fail; then many clients at once with delayed filesystem calls, under the race detector; non-trivial when an object was served", c26)
}

var btnRe = regexp.MustCompile(`data-bs-id="([^"]*)" data-bs-checksum="([^"]*)">\s*([^<]*?)\s*</button>`)
var folderRe = regexp.MustCompile(`(?s)<a href="([^"]*)" class="list-group-item[^>]*>.*?<strong class="mb-1">([^<]*)</strong>`)
var dlRe = regexp.MustCompile(`href="(\.\./download/[^"]*)"`)

// vobj is what is known of an object
type vobj struct {
	id, path string
	inv      *jinv
	title    string            // given with the metadata document
	ext      map[string][]byte // files of extensions
	content  map[string][]byte // by digest
}

func pathEsc(p string) string {
	l := strings.Split(p, "/")
	for i := range l {
		l[i] = url.PathEscape(l[i])
	}
	return strings.Join(l, "/")
}

// request is a request with the expected answer
type request struct {
	kind string
	path string
	want func(code int, body []byte) string // "" = as expected
}

func ok(code int, body []byte) string {
	if code != 200 {
		return fmt.Sprintf("status %d %s", code, clip(string(body), 300))
	}
	return ""
}

func sameBytes(want []byte) func(int, []byte) string {
	return func(code int, body []byte) string {
		if s := ok(code, body); s != "" {
			return s
		}
		if !bytes.Equal(body, want) {
			return fmt.Sprintf("%d bytes that differ from the %d stored bytes", len(body), len(want))
		}
		return ""
	}
}

func refused(code int, body []byte) string {
	if code < 400 {
		return fmt.Sprintf("answered with status %d and %d bytes: %s", code, len(body), clip(string(body), 200))
	}
	return ""
}

func trimmed(s string) string { return strings.TrimSpace(strings.ReplaceAll(s, "\x00", "\ufffd")) }

// listing compares a page with the expected names and digests
func listing(id string, want map[string]string) func(int, []byte) string {
	return func(code int, body []byte) string {
		if s := ok(code, body); s != "" {
			return s
		}
		got := map[string]string{}
		for _, m := range btnRe.FindAllStringSubmatch(string(body), -1) {
			if x, err := url.PathUnescape(html.UnescapeString(m[1])); err != nil || x != id {
				return fmt.Sprintf("an entry refers to object %q", m[1])
			}
			got[trimmed(html.UnescapeString(m[3]))+"\n"+html.UnescapeString(m[2])] = ""
		}
		exp := map[string]string{}
		for n, d := range want {
			exp[trimmed(n)+"\n"+d] = ""
		}
		for _, k := range sortedKeys(exp) {
			if _, ok := got[k]; !ok {
				return fmt.Sprintf("%q is not listed", k)
			}
		}
		for _, k := range sortedKeys(got) {
			if _, ok := exp[k]; !ok {
				return fmt.Sprintf("%q is listed but does not exist", k)
			}
		}
		return ""
	}
}

// good makes requests for what exists
func (o *vobj) good(rng *rand.Rand) (l []request) {
	x := "/object/id/" + url.PathEscape(o.id)
	title := func(code int, body []byte) string {
		if s := ok(code, body); s != "" {
			return s
		}
		if !strings.Contains(html.UnescapeString(string(body)), o.id) {
			return "the page does not show the identifier"
		}
		for v := range o.inv.Versions {
			if !strings.Contains(string(body), "/version/"+v) && !strings.Contains(string(body), "Version "+v) {
				return "version " + v + " is not listed"
			}
		}
		return ""
	}
	l = append(l, request{"object", x, title}, request{"report", x + "/report", func(code int, body []byte) string {
		if s := title(code, body); s != "" {
			return s
		}
		if o.title != "" && !strings.Contains(html.UnescapeString(string(body)), o.title) {
			return fmt.Sprintf("the title %q given with the metadata of the object is not shown", o.title)
		}
		return ""
	}}, request{"report", x + "/report?full", func(code int, body []byte) string {
		if s := title(code, body); s != "" {
			return s
		}
		text := html.UnescapeString(string(body))
		for n := range o.inv.logical(o.inv.Head) {
			if !strings.Contains(text, strings.ReplaceAll(n, "\x00", "\ufffd")) {
				return fmt.Sprintf("file %q is not listed", n)
			}
		}
		return ""
	}})
	man := map[string]string{}
	for d, ps := range o.inv.Manifest {
		for _, p := range ps {
			man[p] = d
		}
	}
	l = append(l, request{"manifest", x + "/manifest", listing(o.id, man)})
	used := map[string]bool{}
	for _, v := range sortedKeys(o.inv.Versions) {
		lg := o.inv.logical(v)
		l = append(l, request{"version", x + "/version/" + url.PathEscape(v), listing(o.id, lg)})
		for n, d := range lg {
			if used[d] && rng.Intn(4) > 0 {
				continue
			}
			used[d] = true
			l = append(l, request{"download", x + "/download/" + d + "/" + url.PathEscape(n[strings.LastIndex(n, "/")+1:]), sameBytes(o.content[d])})
		}
	}
	for _, p := range sortedKeys(o.ext) {
		i := strings.Index(p, "/")
		l = append(l, request{"extension", x + "/extension/" + url.PathEscape(p[:i]) + "/download/" + pathEsc(p[i+1:]), sameBytes(o.ext[p])})
	}
	for d := range used {
		l = append(l, request{"detail", x + "/detail/" + d, func(code int, body []byte) string {
			if s := ok(code, body); s != "" {
				return s
			}
			text := html.UnescapeString(string(body))
			for _, p := range o.inv.Manifest[d] {
				if !strings.Contains(text, p) {
					return fmt.Sprintf("content path %q is not listed", p)
				}
			}
			return ""
		}})
	}
	return
}

// bad makes requests for what does not exist
func (o *vobj) bad(rng *rand.Rand, others []*vobj, root Tree) (l []request) {
	x := "/object/id/" + url.PathEscape(o.id)
	add := func(kind, p string) { l = append(l, request{kind, p, refused}) }
	v := fmt.Sprintf("v%d", len(o.inv.Versions)+1+rng.Intn(3))
	if _, ok := o.inv.Versions[v]; !ok {
		add("no version", x+"/version/"+v)
	}
	add("no version", x+"/version/"+pick(rng, []string{"content", "..", "v0", "extensions", "%2e%2e", "x"}))
	digest := ""
	for d := range o.inv.Manifest {
		digest = d
	}
	if digest != "" {
		no := strings.Map(func(r rune) rune {
			if r >= '0' && r <= '8' {
				return r + 1
			}
			return 'a'
		}, digest)
		if _, ok := o.inv.Manifest[no]; !ok {
			add("no digest", x+"/download/"+no+"/x")
			add("no digest", x+"/detail/"+no)
		}
		add("no digest", x+"/download/"+url.PathEscape(o.inv.Manifest[digest][0])+"/x")
		add("no digest", x+"/download/..%2f..%2f"+digest+"/x")
	}
	add("no object", "/object/id/"+url.PathEscape(o.id+"x/y no such"))
	add("no object", "/object/id/"+url.PathEscape("no such/"+o.id)+"/manifest")
	add("no object", "/object/folder/no/such/folder")
	add("no object", "/object/folder/"+pathEsc(o.path)+"/v1")
	if d := filepath.Dir(o.path); d != "." {
		add("no object", "/object/folder/"+pathEsc(d))
	}
	for _, p := range others {
		if p != o {
			for d := range p.inv.Manifest {
				if _, ok := o.inv.Manifest[d]; !ok {
					add("digest of another object", x+"/download/"+d+"/x")
					break
				}
			}
		}
	}
	dots := func() string {
		return pick(rng, []string{"..", "%2e%2e", ".%2e", "%2E%2E"})
	}
	slash := func() string { return pick(rng, []string{"/", "%2f", "%2F", "%5c"}) }
	up := func(n int) string {
		s := ""
		for i := 0; i < n; i++ {
			s += dots() + slash()
		}
		return s
	}
	exts := map[string]bool{"none": true}
	for p := range o.ext {
		exts[strings.SplitN(p, "/", 2)[0]] = true
	}
	ext := pick(rng, sortedKeys(exts))
	depth := strings.Count(o.path, "/") + 1
	for n := 0; n < 4; n++ {
		target := pick(rng, []string{"secret.txt", "inventory.json", "0=ocfl_1.0", "0=ocfl_1.1", "0=ocfl_object_1.0", "0=ocfl_object_1.1", "ocfl_layout.json", "v1/inventory.json", "extensions/initial/config.json", "initial/config.json", "etc/hostname", "config.json"})
		if rng.Intn(3) == 0 && len(others) > 0 {
			target = pick(rng, others).path + "/inventory.json"
		}
		k := 1 + rng.Intn(depth+4)
		switch rng.Intn(3) {
		case 0:
			add("traversal", x+"/extension/"+url.PathEscape(ext)+"/download/"+up(k)+pathEsc(target))
		case 1:
			// the extension parameter leads elsewhere
			e := strings.TrimSuffix(strings.ReplaceAll(strings.Repeat("..%2f", k), "..", dots()), "%2f")
			add("traversal", x+"/extension/"+e+"/download/"+pathEsc(target))
		case 2:
			add("traversal", "/object/folder/"+up(k)+pick(rng, []string{"secret", "outside", "root/" + pathEsc(o.path), ""}))
		}
	}
	add("no file", x+"/extension/"+url.PathEscape(ext)+"/download/no%20such%20file")
	add("no file", x+"/extension/none/download/config.json")
	add("directory", x+"/extension/"+url.PathEscape(ext)+"/download/.")
	add("no page", x+"/nothing")
	add("no page", "/inventory.json")
	add("no page", "/static/"+up(3)+"etc/hostname")
	return
}

func c26(r *Run) {
	r.Assume = []string{"repositories do not change while they are served; identifiers that are empty, '.' or '..' cannot be requested by http clients and are not served"}
	opt := HistOpt{Odd: true, Ops: true}
	runHistories(r, "v", r.N(70, 400), opt, faultCfg(r), func(w *World, s *StepRes) {
		if s.Meta != nil && s.ID != "" && s.Err == nil && s.Panic == "" && (s.NewVersion != "" || !w.metaVersioned()) {
			if w.titles == nil {
				w.titles = map[string]string{}
			}
			var m struct{ Title string }
			if json.Unmarshal(s.Meta, &m) == nil {
				w.titles[s.ID] = m.Title
			}
		}
	}, func(w *World) { w.viewWorld() })
	r.raceReports()
}

func (w *World) viewWorld() {
	r, rng := w.r, w.rng
	t := readTree(w.dir)
	top := w.tmpDir()
	defer os.RemoveAll(top)
	// an object and a file outside of the repository
	dir := filepath.Join(top, "a/b/root")
	if err := writeTree(dir, t); err != nil {
		panic(err)
	}
	os.WriteFile(filepath.Join(top, "a/secret.txt"), []byte("secret"), 0644)
	os.WriteFile(filepath.Join(top, "a/b/secret.txt"), []byte("secret"), 0644)
	var objs []*vobj
	for _, id := range w.ids {
		if id == "" || id == "." || id == ".." {
			continue
		}
		o := w.objs[id]
		b := t[o.Path+"/inventory.json"]
		inv, err := readInv(b)
		if err != nil {
			continue
		}
		v := &vobj{id: id, path: o.Path, inv: inv, title: w.titles[id], ext: map[string][]byte{}, content: map[string][]byte{}}
		for p, b := range t.files() {
			if s, ok := strings.CutPrefix(p, o.Path+"/extensions/"); ok && strings.Contains(s, "/") {
				v.ext[s] = b
			}
		}
		for d, ps := range inv.Manifest {
			v.content[d] = t[o.Path+"/"+ps[0]]
		}
		objs = append(objs, v)
	}
	if len(objs) == 0 {
		return
	}
	for k := 0; k < 2; k++ {
		o := objs[rng.Intn(len(objs))]
		s := Tree{}
		for p, b := range t.sub(o.path) {
			s[p] = b
		}
		writeTree(filepath.Join(top, pick(rng, []string{"a/outside", "a/b/outside", "a/secret", "a/b/secret"})), s)
	}
	rec := NewRec()
	var mu sync.Mutex
	dr := rand.New(rand.NewSource(rng.Int63()))
	var many atomic.Bool
	rec.Delay = func(op string) {
		if !many.Load() {
			return
		}
		mu.Lock()
		d := dr.Intn(40)
		mu.Unlock()
		if d < 3 {
			time.Sleep(time.Duration(d*200) * time.Microsecond)
		}
	}
	e, err := openRoot(dir, w.cfg, rec)
	if err != nil {
		panic(err)
	}
	v, err := startViewer(e.SR)
	if err != nil {
		r.Count("viewers_not_started", 1)
		return
	}
	defer v.stop()
	var rmu sync.Mutex
	report := func(key, msg string) {
		rmu.Lock()
		defer rmu.Unlock()
		w.bad = true
		r.Violate(key, fmt.Sprintf("%s\n    (%s)\n    history: %s", msg, w.cfg.Label, strings.Join(w.log, "\n             ")), map[string]any{"config": w.cfg, "history": w.log})
	}
	ask := func(q request, conc bool) bool {
		code, body, err := v.get(q.path)
		if err != nil {
			if strings.Contains(err.Error(), "invalid URL") || strings.Contains(err.Error(), "parse") {
				return true
			}
			report("transport:"+q.kind, fmt.Sprintf("GET %s: %v", q.path, err))
			return false
		}
		if s := q.want(code, body); s != "" {
			c := ""
			if conc {
				c = "concurrent "
			}
			report(c+q.kind+":"+fmt.Sprint(code), fmt.Sprintf("%sGET %s: %s", c, q.path, s))
			return false
		}
		r.Count("requests_"+strings.ReplaceAll(q.kind, " ", "_"), 1)
		return true
	}
	// the list of objects
	code, body, err := v.get("/")
	if err != nil || code != 200 {
		report("root", fmt.Sprintf("GET /: %d %v %s", code, err, clip(string(body), 300)))
		return
	}
	byPath := map[string]*vobj{}
	for _, o := range objs {
		byPath[trimmed(o.path)] = o
	}
	seen := map[string]bool{}
	for _, m := range folderRe.FindAllStringSubmatch(string(body), -1) {
		f := trimmed(html.UnescapeString(m[2]))
		o := byPath[f]
		if o == nil {
			if len(objs) == len(w.ids) {
				report("root", fmt.Sprintf("the list of objects contains %q", f))
				return
			}
			continue
		}
		seen[f] = true
		href := html.UnescapeString(m[1])
		resp, err := v.client.Get(v.base + href)
		if err != nil {
			report("folder", fmt.Sprintf("GET %s: %v", href, err))
			return
		}
		resp.Body.Close()
		loc := resp.Header.Get("Location")
		if resp.StatusCode != 308 || !strings.HasSuffix(loc, "/object/id/"+url.PathEscape(o.id)) {
			report("folder", fmt.Sprintf("the link %s to object %q answers %d %s", href, o.id, resp.StatusCode, loc))
			return
		}
		r.Count("requests_folder", 1)
	}
	for f := range byPath {
		if !seen[f] {
			report("root", fmt.Sprintf("the list of objects does not contain %q", f))
			return
		}
	}
	// one client
	for k, o := range objs {
		r.Case(fmt.Sprint(o.id, o.path, len(o.inv.Versions), w.cfg.Label, k), true)
		for _, q := range append(o.good(rng), o.bad(rng, objs, t)...) {
			if !ask(q, false) {
				return
			}
		}
		// links of the detail pages
		n := 0
		for _, d := range sortedKeys(o.inv.Manifest) {
			if n++; n > 4 {
				break
			}
			page := "/object/id/" + url.PathEscape(o.id) + "/detail/" + d
			_, body, err := v.get(page)
			if err != nil {
				continue
			}
			for _, m := range dlRe.FindAllStringSubmatch(string(body), -1) {
				href := html.UnescapeString(m[1])
				base, _ := url.Parse(v.base + page)
				ref, err := url.Parse(href)
				if err != nil {
					report("link", fmt.Sprintf("page %s contains the invalid link %s", page, href))
					return
				}
				u := base.ResolveReference(ref)
				if !ask(request{"link", strings.TrimPrefix(u.String(), v.base), sameBytes(o.content[d])}, false) {
					return
				}
			}
		}
	}
	// many clients
	if len(objs) < 2 {
		return
	}
	var all []request
	for _, o := range objs {
		all = append(all, o.good(rng)...)
	}
	many.Store(true)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		cr := rand.New(rand.NewSource(rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 25; k++ {
				if !ask(all[cr.Intn(len(all))], true) {
					return
				}
				r.Count("concurrent_requests", 1)
			}
		}()
	}
	wg.Wait()
}
