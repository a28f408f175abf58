package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"
)

func init() {
	register("C11", "exploration", "paths (ASCII, all listed special characters, multibyte, periods, tildes, escape look-alikes, lengths around the limits) under random parameters of NNNN-direct-clean-path-layout used for storage paths and content paths; compared with an implementation written from docs/NNNN-direct-clean-path-layout.md and with the safety rules alone; in UTF mode the result is decoded again. Distinct = parameter class and path class", c11)
}

type cleanCfg struct {
	pathLen, segLen   int
	repl, wsRepl      string
	utf               bool
	alg, folder       string
	tuples, tupleSize int
}

func (c cleanCfg) spec() ExtSpec {
	return ext("NNNN-direct-clean-path-layout", "maxPathnameLen", c.pathLen, "maxPathSegmentLen", c.segLen, "replacementString", c.repl, "whitespaceReplacementString", c.wsRepl, "utfEncode", c.utf,
		"fallbackDigestAlgorithm", c.alg, "fallbackFolder", c.folder, "numberOfFallbackTuples", c.tuples, "fallbackTupleSize", c.tupleSize)
}

func isWS(c rune) bool {
	return c >= 9 && c <= 0xd || c == 0x20 || c == 0x85 || c == 0xa0 || c == 0x1680 || c >= 0x2000 && c <= 0x200f || c == 0x2028 || c == 0x2029 || c == 0x202f || c == 0x205f || c == 0x3000
}

func isDanger(c rune) bool {
	return c <= 0x1f || c == 0x7f || strings.ContainsRune("*?:[]\"<>|(){}&'!;#@", c)
}

// cleanRef: the segments of the cleaned path; exact is false where the text leaves the result open
func (c cleanCfg) segments(p string) (segs []string, exact bool) {
	exact = true
	for _, n := range strings.Split(p, "/") {
		if n == "" {
			continue
		}
		if c.utf {
			var b strings.Builder
			rs := []rune(n)
			for i, ch := range rs {
				switch {
				case ch == '=' && i+5 < len(rs) && rs[i+1] == 'u':
					hex, alnum := true, true
					for _, h := range rs[i+2 : i+6] {
						if !strings.ContainsRune("0123456789abcdefABCDEF", h) {
							hex = false
						}
						if !(h >= '0' && h <= '9' || h >= 'a' && h <= 'z' || h >= 'A' && h <= 'Z') {
							alnum = false
						}
					}
					if hex {
						b.WriteString("=u003D")
					} else {
						if alnum {
							exact = false
						}
						b.WriteRune('=')
					}
				case isWS(ch) || isDanger(ch):
					fmt.Fprintf(&b, "=u%04X", ch)
				default:
					b.WriteRune(ch)
				}
			}
			n = b.String()
			if n[0] == '~' {
				n = "=u007E" + n[1:]
			}
			if strings.Trim(n, ".") == "" {
				n = "=u002E" + n[1:]
			}
		} else {
			var b strings.Builder
			for _, ch := range n {
				switch {
				case isWS(ch):
					b.WriteString(c.wsRepl)
				case isDanger(ch):
					b.WriteString(c.repl)
				default:
					b.WriteRune(ch)
				}
			}
			n = b.String()
			rs := []rune(n)
			i, j := 0, len(rs)
			for i < j && (isWS(rs[i]) || rs[i] == '-' || rs[i] == '~') {
				i++
			}
			for j > i && isWS(rs[j-1]) {
				j--
			}
			// the prose and the reference code of the document differ here
			if j > i && rs[j-1] >= 0x2000 && rs[j-1] <= 0x20a0 {
				exact = false
			}
			n = string(rs[i:j])
			if n != "" && strings.Trim(n, ".") == "" {
				n = c.repl + n[1:]
			}
			if n != "" && strings.Trim(n, ".") == "" {
				exact = false // a replacement string that yields periods again
			}
		}
		if n != "" {
			segs = append(segs, n)
		}
	}
	return segs, exact
}

func (c cleanCfg) fallback(p string) (string, bool) {
	dg := digest(c.alg, []byte(p))
	var parts []string
	if c.folder != "" {
		parts = append(parts, c.folder)
	}
	ts := c.tupleSize
	if ts == 0 {
		ts = 1
	}
	if ts*c.tuples > len(dg) {
		return "", false
	}
	for i := 0; i < c.tuples; i++ {
		parts = append(parts, dg[i*ts:i*ts+ts])
	}
	for s := dg; s != ""; {
		n := c.segLen
		if n > len(s) {
			n = len(s)
		}
		parts = append(parts, s[:n])
		s = s[n:]
	}
	res := strings.Join(parts, "/")
	return res, c.fits(res)
}

func (c cleanCfg) fits(p string) bool {
	if len(p) > c.pathLen {
		return false
	}
	for _, s := range strings.Split(p, "/") {
		if len(s) > c.segLen {
			return false
		}
	}
	return true
}

var reUTF = regexp.MustCompile("=u[0-9A-F]{4}")

func decodeClean(s string) string {
	return reUTF.ReplaceAllStringFunc(s, func(m string) string {
		n, _ := strconv.ParseUint(m[2:], 16, 32)
		return string(rune(n))
	})
}

var c11pieces = []string{"a", "b", "file", ".txt", ".", "..", "...", "-", "~", " ", "  ", "=", "=u", "=u003A", "=u0041", "=u00", "=u00zz", "=u123", "u003D", "\t", "\n", "\r", "\v", "\f", "*", "?", ":", "[", "]", "\"", "<", ">", "|", "(", ")", "{", "}", "&", "'", "!", ";", "#", "@", "\\", "$", "%", "^", "+", ",", "`", "_", "é", "日", "😀", "\u0001", "\u001f", "\u007f", "\u0085", "\u00a0", "\u1680", "\u2000", "\u2009", "\u200b", "\u200f", "\u2010", "\u2014", "\u2019", "\u2028", "\u2029", "\u202f", "\u205f", "\u3000", "\u20a0", "\u20ac", "\ufeff", "\\u0020", "0", "0041", "A"}

func genCleanPath(rng *rand.Rand, c cleanCfg) (string, string) {
	seg := func() string {
		switch rng.Intn(12) {
		case 0:
			return pick(rng, plainFiles)
		case 1: // around the segment limit
			n := c.segLen - 3 + rng.Intn(6)
			if n < 1 {
				n = 1
			}
			s := strings.Repeat("x", n)
			if n > 3 && rng.Intn(2) == 0 {
				s = s[:n-3] + pick(rng, []string{"é", "日", "😀", ":", " "})
			}
			return s
		case 2:
			return strings.Repeat(".", 1+rng.Intn(5))
		case 3:
			return strings.Repeat(pick(rng, []string{" ", "-", "~", "\u3000", "\t"}), rng.Intn(3)) + pick(rng, c11pieces) + strings.Repeat(pick(rng, []string{" ", "-", "~", "\u3000", "\t"}), rng.Intn(3))
		case 4:
			var b strings.Builder
			for n := 1 + rng.Intn(10); n > 0; n-- {
				ch := rune(rng.Intn(0x3100))
				if rng.Intn(4) == 0 {
					ch = rune(rng.Intn(0x110000))
				}
				if ch == '/' || !utf8.ValidRune(ch) {
					ch = 'q'
				}
				b.WriteRune(ch)
			}
			return b.String()
		case 5:
			return strings.Repeat(pick(rng, c11pieces), 1+rng.Intn(60))
		}
		var b strings.Builder
		for n := 1 + rng.Intn(6); n > 0; n-- {
			b.WriteString(pick(rng, c11pieces))
		}
		return b.String()
	}
	n, class := 1+rng.Intn(4), "path"
	switch rng.Intn(10) {
	case 0: // around the path limit
		class = "long"
		var s []string
		total := 0
		for total < c.pathLen-10 && len(s) < 400 {
			l := 1 + rng.Intn(c.segLen)
			if total+l+1 > c.pathLen {
				l = 5
			}
			s = append(s, strings.Repeat(pick(rng, []string{"x", "y"}), l))
			total += l + 1
		}
		if rng.Intn(3) == 0 {
			s = append(s, " :x")
		}
		return strings.Join(s, "/") + strings.Repeat("z", rng.Intn(15)), class
	case 1:
		class = "emptyseg"
		return pick(rng, []string{"/", "//", ""}) + seg() + pick(rng, []string{"//", "/"}) + seg() + pick(rng, []string{"", "/"}), class
	case 2:
		class = "invalid"
		return seg() + pick(rng, []string{"\xff", "\xc3", "\xe2\x80", "a\x80b"}) + seg(), class
	}
	var s []string
	for i := 0; i < n; i++ {
		s = append(s, seg())
	}
	return strings.Join(s, "/"), class
}

func genClean(rng *rand.Rand) (cleanCfg, string) {
	c := cleanCfg{pathLen: pick(rng, []int{32000, 32000, 300, 200, 120}), segLen: pick(rng, []int{127, 127, 64, 40, 20, 255}), repl: pick(rng, []string{"_", "_", "", "-", "__", "+", "%"}), wsRepl: pick(rng, []string{" ", " ", "_", "", "-", "\u00b7"}),
		utf: rng.Intn(2) == 0, alg: pick(rng, []string{"md5", "sha1", "sha256", "sha512", "blake2b-256"}), folder: pick(rng, []string{"fallback", "fallback", "fb", "x/y"}), tuples: pick(rng, []int{0, 0, 1, 2, 3, 5}), tupleSize: pick(rng, []int{0, 1, 2, 3})}
	return c, fmt.Sprintf("%d/%d/%q/%q/%v/%s/%s/%dx%d", c.pathLen, c.segLen, c.repl, c.wsRepl, c.utf, c.alg, c.folder, c.tuples, c.tupleSize)
}

func c11(r *Run) {
	r.Parallel(r.N(4000, 60000), func(i int) {
		rng := r.Rng("c11", i)
		c, label := genClean(rng)
		m, err := layoutManager([]ExtSpec{c.spec()})
		if err != nil {
			r.Violate("load", fmt.Sprintf("valid configuration cannot be loaded: %s: %v", label, err), c.spec().Cfg)
			return
		}
		f, _ := newFactory(&Cfg{})
		om, err := f.LoadExtensions(NewMemFS(extFiles([]ExtSpec{c.spec()})), nil)
		if err != nil {
			r.Violate("load", err.Error(), label)
			return
		}
		type res struct {
			out string
			err bool
		}
		call := func(p string, content bool) (res, string) {
			var s string
			err, pan := Guard(func() error {
				var e error
				if content {
					s, e = om.BuildObjectManifestPath(nil, p, "content")
				} else {
					s, e = m.BuildStorageRootPath(nil, p)
				}
				return e
			})
			r.Count("paths_mapped", 1)
			if err != nil {
				return res{"", true}, pan
			}
			return res{s, false}, pan
		}
		first := map[string]res{}
		var order []string
		outs := map[string]string{}
		for j := 0; j < 50 && !r.Stopped(); j++ {
			p, class := genCleanPath(rng, c)
			if p == "" || strings.Trim(p, "/") == "" {
				continue
			}
			content := j%2 == 0
			got, pan := call(p, content)
			rep := map[string]any{"config": c.spec().Cfg, "path": p, "content_path": content, "got": got.out, "error": got.err}
			if pan != "" {
				r.Violate("panic:"+panicSite(pan), fmt.Sprintf("%q with %s: %s", p, label, pan), rep)
				continue
			}
			r.Case(fmt.Sprintf("%v/%d/%d/%q/%s|%s", c.utf, c.segLen, c.pathLen, c.repl, c.alg, class), true)
			if _, ok := first[p]; !ok {
				first[p] = got
				order = append(order, p)
			} else if first[p] != got {
				r.Violate("nondeterministic", fmt.Sprintf("%q with %s: %v, later %v", p, label, first[p], got), rep)
			}
			valid := utf8.ValidString(p)
			segs, exact := c.segments(p)
			within := true
			for _, s := range segs {
				if len(s) > c.segLen {
					within = false
				}
			}
			clean := strings.Join(segs, "/")
			if len(clean) > c.pathLen {
				within = false
			}
			fb1, ok1 := c.fallback(p)
			fb2, ok2 := c.fallback(clean)
			if got.err {
				r.Count("refused", 1)
				if valid && exact && within && clean != "" {
					r.Violate("refused", fmt.Sprintf("%q with %s is refused, expected %q", p, label, clean), rep)
				} else if valid && exact && ok1 && ok2 {
					r.Violate("refused-fallback", fmt.Sprintf("%q with %s is refused although its hashed form %q fits", p, label, fb1), rep)
				}
				continue
			}
			out := got.out
			// safety rules, whatever the input
			if out == "" || strings.HasPrefix(out, "/") {
				r.Violate("relative", fmt.Sprintf("%q with %s -> %q is not a proper relative path", p, label, out), rep)
			}
			for _, s := range strings.Split(out, "/") {
				if s == "" || s == "." || s == ".." {
					r.Violate("segment", fmt.Sprintf("%q with %s -> %q has a bad segment %q", p, label, out, s), rep)
				}
			}
			if !c.fits(out) {
				r.Violate("limit", fmt.Sprintf("%q with %s -> %q (%d bytes) exceeds the limits", p, label, out, len(out)), rep)
			}
			for _, ch := range out {
				if (isDanger(ch) || isWS(ch)) && !strings.ContainsRune(c.repl, ch) && (c.utf || !strings.ContainsRune(c.wsRepl, ch)) {
					r.Violate("character", fmt.Sprintf("%q with %s -> %q contains %q", p, label, out, ch), rep)
				}
			}
			if !valid {
				continue
			}
			if exact && within && clean != "" {
				if out != clean {
					r.Violate("value", fmt.Sprintf("%q with %s -> %q, the document says %q", p, label, out, clean), rep)
				}
			} else if exact {
				r.Count("fallbacks", 1)
				if !(out == fb1 && ok1) && !(out == fb2 && ok2) {
					r.Violate("fallback", fmt.Sprintf("%q with %s -> %q, the document says %q", p, label, out, fb1), rep)
				}
			}
			// reversible and injective
			if c.utf && class != "emptyseg" && within && exact {
				r.Count("decoded", 1)
				norm := strings.Trim(p, "/")
				if d := decodeClean(out); norm == p && !strings.Contains(p, "//") && d != p {
					r.Violate("decode", fmt.Sprintf("%q with %s -> %q decodes to %q", p, label, out, d), rep)
				}
				if o, ok := outs[out]; ok && o != p && norm == p && !strings.Contains(p, "//") {
					r.Violate("injective", fmt.Sprintf("%q and %q with %s -> %q", o, p, label, out), rep)
				}
				if norm == p && !strings.Contains(p, "//") {
					outs[out] = p
				}
			}
			if i%211 == 0 && j < 2 {
				r.Sample(rep)
			}
		}
		// the same in another order and concurrently
		var wg sync.WaitGroup
		for g := 0; g < 2; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for j := range order {
					p := order[(len(order)-1-j+g*11)%len(order)]
					for _, content := range []bool{true, false} {
						got, pan := call(p, content)
						if pan != "" || got != first[p] {
							r.Violate("nondeterministic", fmt.Sprintf("%q with %s: first %v, later %v %s", p, label, first[p], got, pan), p)
						}
					}
				}
			}(g)
			if i%8 != 0 {
				wg.Wait()
			}
		}
		wg.Wait()
	})
	// in objects: the content paths of the manifest are the mapped logical paths
	r.Parallel(r.N(200, 2000), func(i int) {
		rng := r.Rng("c11obj", i)
		c, label := genClean(rng)
		c.pathLen = 32000
		if c.repl == "" {
			c.repl = "_"
		}
		cfg := &Cfg{Ver: "1.1", Digest: "sha512", Dedup: false, Layout: "0004", Root: []ExtSpec{ext("0004-hashed-n-tuple-storage-layout", "digestAlgorithm", "sha256", "tupleSize", 3, "numberOfTuples", 3, "shortObjectRoot", false)}, Obj: []ExtSpec{c.spec()}}
		dir := filepath.Join(r.Scratch, fmt.Sprintf("c11o%d", i))
		os.MkdirAll(dir, 0755)
		defer os.RemoveAll(dir)
		e, err := createRoot(dir, cfg, nil)
		if err != nil {
			r.Violate("init", err.Error(), label)
			return
		}
		src := map[string][]byte{}
		want := map[string]string{}
		taken := map[string]bool{}
		dirs := map[string]bool{}
		for j := 0; j < 12; j++ {
			p, class := genCleanPath(rng, c)
			segs, exact := c.segments(p)
			clean := strings.Join(segs, "/")
			if class != "path" || !utf8.ValidString(p) || !exact || clean == "" || !c.fits(clean) || !fsSafe(clean) || !fsSafe(p) || taken[clean] || dirs[clean] {
				continue
			}
			conflict := false
			for k := strings.LastIndex(clean, "/"); k > 0; k = strings.LastIndex(clean[:k], "/") {
				conflict = conflict || taken[clean[:k]]
			}
			for q := range src {
				if strings.HasPrefix(q, p+"/") || strings.HasPrefix(p, q+"/") {
					conflict = true
				}
			}
			if conflict {
				continue
			}
			taken[clean] = true
			for k := strings.LastIndex(clean, "/"); k > 0; k = strings.LastIndex(clean[:k], "/") {
				dirs[clean[:k]] = true
			}
			src[p] = []byte(fmt.Sprintf("content of %q %d", p, j))
			want[p] = "v1/content/" + clean
		}
		if len(src) == 0 {
			return
		}
		u := &Upd{Msg: "m", User: "u", Addr: "a", Ops: []Op{{Kind: "folder", Src: src}}}
		err, pan := Guard(func() error { return e.update("obj", u) })
		if err != nil || pan != "" {
			r.Violate("object-update", fmt.Sprintf("%s: %v %s", label, err, pan), src)
			return
		}
		for p, w := range want {
			found := ""
			t := readTree(dir)
			for f, b := range t {
				if string(b) == string(src[p]) && !strings.HasSuffix(f, "/") {
					if k := strings.Index(f, "/v1/content/"); k >= 0 {
						found = f[k+1:]
					}
				}
			}
			r.Count("content_paths_checked", 1)
			r.Case("object|"+fmt.Sprint(c.utf, c.segLen), true)
			if found != w {
				r.Violate("content-path", fmt.Sprintf("logical path %q with %s is stored at %q, expected %q", p, label, found, w), p)
			}
		}
	})
}
