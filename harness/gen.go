package main

import (
	"fmt"
	"math/rand"
	"path"
	"strings"
)

// ---- configurations -------------------------------------------------------

func layoutSpecs(rng *rand.Rand) (ExtSpec, string) {
	switch rng.Intn(8) {
	case 0:
		return ext("0002-flat-direct-storage-layout"), "0002"
	case 1:
		ts := 1 + rng.Intn(4)
		return ext("0003-hash-and-id-n-tuple-storage-layout", "digestAlgorithm", pick(rng, []string{"sha256", "sha512", "md5", "sha1"}), "tupleSize", ts, "numberOfTuples", 1+rng.Intn(4)), "0003"
	case 2:
		return ext("0004-hashed-n-tuple-storage-layout", "digestAlgorithm", pick(rng, []string{"sha256", "sha512", "md5", "sha1"}), "tupleSize", 1+rng.Intn(4), "numberOfTuples", 1+rng.Intn(4), "shortObjectRoot", rng.Intn(2) == 0), "0004"
	case 3:
		return ext("0006-flat-omit-prefix-storage-layout", "delimiter", pick(rng, []string{":", "/", "edu/", "urn:"})), "0006"
	case 4:
		return ext("0007-n-tuple-omit-prefix-storage-layout", "delimiter", pick(rng, []string{":", "edu/"}), "tupleSize", 1+rng.Intn(4), "numberOfTuples", 1+rng.Intn(4), "zeroPadding", pick(rng, []string{"left", "right"}), "reverseObjectRoot", rng.Intn(2) == 0), "0007"
	case 5:
		return ext("NNNN-pairtree-storage-layout", "uriBase", "info:", "storeDir", pick(rng, []string{"", "store"}), "shortyLength", 1+rng.Intn(4), "digestAlgorithm", "sha512"), "pairtree"
	case 6:
		return ext("NNNN-direct-clean-path-layout", "maxPathnameLen", 32000, "maxPathSegmentLen", 127, "replacementString", "_", "whitespaceReplacementString", " ", "utfEncode", rng.Intn(2) == 0), "direct-clean"
	}
	return ext("NNNN-direct-path-layout"), "pathdirect"
}

// idFor makes an identifier acceptable to the layout
func idFor(rng *rand.Rand, layout string, n int) string {
	base := fmt.Sprintf("obj%d", n)
	switch layout {
	case "0006":
		return pick(rng, []string{"urn:x:", "edu/", "urn:edu/", "EDU/urn:"}) + base
	case "0007":
		return pick(rng, []string{"urn:x:", "edu/urn:", "EDU/urn:"}) + base
	case "0002", "pathdirect":
		return pick(rng, []string{"id_", "Ünï-", "x.", "a b ", "extensions-", "extensions", "logs", "v1", "inventory.json", "0=x"}) + base
	case "pairtree":
		return pick(rng, []string{"ark:/13030/", "id-", "what-the-*@?#!^!~-", "a b "}) + base
	case "direct-clean":
		return pick(rng, []string{"info:fedora/", "id ", "http://x.y/", "über:", "extensions", "extensions.x/"}) + base
	}
	return pick(rng, []string{"info:fedora/", "urn:uuid:", "http://example.org/a b/", "日本語", "..id", "/lead/", "a/../b/", "./", strings.Repeat("ü", 70), strings.Repeat("x", 101)}) + base
}

type subPath struct{ Path, Description string }

func csp(areas map[string]string) ExtSpec {
	m := map[string]any{}
	for a, p := range areas {
		m[a] = map[string]any{"path": p, "description": "area " + a + " lives in " + p}
	}
	return ext("NNNN-content-subpath", "subPath", m)
}

// genCfg makes a random but valid configuration
func genCfg(rng *rand.Rand) *Cfg {
	c := &Cfg{
		Ver:    pick(rng, []string{"1.0", "1.1", "1.1"}),
		Digest: pick(rng, []string{"sha512", "sha512", "sha256"}),
		Dedup:  rng.Intn(4) != 0,
		Params: map[string]string{},
	}
	lay, name := layoutSpecs(rng)
	c.Layout = name
	c.LayoutSpec = lay
	c.Root = append(c.Root, lay)
	if rng.Intn(3) != 0 {
		c.Root = append(c.Root, mgrSpecs(nil, nil)...)
	}
	// object extensions
	var sort = map[string][]string{}
	with0001 := rng.Intn(2) == 0
	if with0001 {
		c.Obj = append(c.Obj, ext("0001-digest-algorithms"))
		for _, a := range []string{"md5", "sha1", "sha256", "sha512", "blake2b-160", "blake2b-256", "blake2b-384", "blake2b-512"} {
			if rng.Intn(3) == 0 {
				c.Fixity = append(c.Fixity, a)
			}
		}
	} else if rng.Intn(3) == 0 {
		c.Fixity = []string{pick(rng, []string{"sha512", "sha256"})}
	}
	if rng.Intn(2) == 0 {
		c.Obj = append(c.Obj, ext("NNNN-direct-clean-path-layout", "maxPathnameLen", pick(rng, []int{32000, 32000, 200}), "maxPathSegmentLen", pick(rng, []int{127, 127, 40}), "replacementString", "_", "whitespaceReplacementString", pick(rng, []string{" ", "_"}), "utfEncode", rng.Intn(2) == 0,
			"fallbackFolder", "fallback", "fallbackTupleSize", 1, "numberOfFallbackTuples", rng.Intn(3)))
		sort["ObjectContentPath"] = []string{"NNNN-direct-clean-path-layout", "NNNN-content-subpath"}
		c.Label += "+clean"
		c.Clean = true
	}
	if rng.Intn(3) == 0 {
		c.Areas = map[string]string{"content": "data", "metadata": "meta", "extra": "data2"}
		if rng.Intn(2) == 0 {
			c.Areas["deep"] = "x/y"
		}
		switch rng.Intn(6) {
		case 0: // the root of the object
			c.Areas = map[string]string{"content": pick(rng, []string{".", "", "./"})}
		case 1: // not in the shortest form
			c.Areas["content"], c.Areas["extra"] = "./data/", "a//b/"
		}
		c.Obj = append(c.Obj, csp(c.Areas))
		c.Label += "+subpath"
	}
	if rng.Intn(3) == 0 {
		if c.Areas["metadata"] != "" && rng.Intn(2) == 0 {
			c.Obj = append(c.Obj, ext("NNNN-filesystem", "folders", "", "storageType", "area", "storageName", "metadata", "compress", pick(rng, []string{"none", "gzip", "brotli"})))
			c.FSArea = true
		} else {
			c.Obj = append(c.Obj, ext("NNNN-filesystem", "folders", "", "storageType", "extension", "storageName", "metadata", "compress", pick(rng, []string{"none", "gzip", "brotli"})))
		}
		c.HasFS = true
		c.Label += "+filesystem"
	}
	if len(c.Obj) > 0 && rng.Intn(3) != 0 || len(sort) > 0 {
		c.Obj = append(c.Obj, mgrSpecs(sort, nil)...)
	}
	c.genObjVer(rng)
	c.Label = fmt.Sprintf("%s/%s/%s/fix%d%s", c.Ver, c.Digest, c.Layout, len(c.Fixity), c.Label)
	return c
}

// prefix of an area's logical paths
func (c *Cfg) prefix(area string) (string, bool) {
	if c.Areas == nil {
		return "", true
	}
	if area == "" {
		area = "content"
	}
	if area == "full" {
		return "", true
	}
	p, ok := c.Areas[area]
	if p = path.Clean(p); p == "." {
		p = ""
	}
	return p, ok
}

func (c *Cfg) logical(area, p string) string {
	pre, _ := c.prefix(area)
	return path.Join(pre, p)
}

// ---- names and contents ---------------------------------------------------

var plainDirs = []string{"d", "dir one", "sub", "Ordner"}
var oddDirs = []string{".git", "v1", "content", "extensions", "..d", "d.", "über", "a:b", "~x", "100%", "=u0041d"}
var plainFiles = []string{".htaccess", "a.txt", "b.bin", "readme", "c.xml", "file 1.pdf"}
var oddFiles = []string{".hidden", "inventory.json", "inventory.json.sha512", "0=ocfl_object_1.0", "ü.txt", "日本語.txt", "a:b.txt", "a_b.txt", "a b.txt", " lead", "trail ", "...", "..x", "~tilde", "q?.txt", "st*r", "back\\slash", "quo\"te", "new\nline", "tab\tx", "=u003Aq", "&<>.xml", "e\u0301.txt", "é.txt", strings.Repeat("long", 45), "%2e%2e", "#frag", "!bang", "-dash", "null", "'single'", "\u3000wide", "em—dash"}

type nameGen struct {
	odd bool
}

func (g nameGen) file(rng *rand.Rand) string {
	var dirs []string
	for d := rng.Intn(3); d > 0; d-- {
		if g.odd && rng.Intn(3) == 0 {
			dirs = append(dirs, pick(rng, oddDirs))
		} else {
			dirs = append(dirs, pick(rng, plainDirs))
		}
	}
	f := pick(rng, plainFiles)
	if g.odd && rng.Intn(2) == 0 {
		f = pick(rng, oddFiles)
	} else if rng.Intn(3) == 0 {
		f = fmt.Sprintf("f%d.dat", rng.Intn(50))
	}
	if g.odd && rng.Intn(16) == 0 {
		// a name which differs from frequent ones in case only
		f = pick(rng, []string{"A.txt", "a.TXT", "README", "B.bin", "C.xml"})
	} else if g.odd && rng.Intn(16) == 0 && len(dirs) > 0 {
		dirs[0] = pick(rng, []string{"D", "SUB", "Sub", "ordner"})
	}
	return path.Join(append(dirs, f)...)
}

// genContent draws from a small pool so that identical contents are frequent
func genContent(rng *rand.Rand) []byte {
	switch rng.Intn(12) {
	case 0:
		return []byte{}
	case 1, 2, 3, 4, 5:
		return []byte(fmt.Sprintf("content %d", rng.Intn(6)))
	case 6:
		return []byte(fmt.Sprintf("{\"json\": %d}\n", rng.Intn(1000)))
	case 7:
		b := randBytes(rng, 1+rng.Intn(100000))
		return b
	case 8:
		if rng.Intn(6) == 0 {
			return randBytes(rng, 1<<20+rng.Intn(1<<20))
		}
	}
	return randBytes(rng, 1+rng.Intn(300))
}

func genTree(rng *rand.Rand, n int, g nameGen) map[string][]byte {
	m := map[string][]byte{}
	for i := 0; i < n; i++ {
		m[g.file(rng)] = genContent(rng)
	}
	return m
}

var msgs = []string{"initial", "second try", "üñí©ødé ✓", "multi\nline \"quoted\" \\ back", "", "<tag>&amp;", "\u2028sep", strings.Repeat("x", 2000)}
var users = []string{"Jürgen Enge", "a", "\"q\" <x>", "名前", "user\twith tab"}
var addrs = []string{"mailto:a@b.ch", "https://orcid.org/0000-0000-0000-0000", "", "ünï@x"}

func genUpdHead(rng *rand.Rand) *Upd {
	return &Upd{Msg: pick(rng, msgs), User: pick(rng, users), Addr: pick(rng, addrs), Dedup: true}
}
