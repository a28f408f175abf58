package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"path"
	"path/filepath"
	"strings"

	"github.com/je4/gocfl/v2/pkg/subsystem/migration"
	"github.com/je4/gocfl/v2/pkg/subsystem/thumbnail"
)

const metaSchema = `{"$schema":"https://json-schema.org/draft/2020-12/schema","type":"object","required":["title"],"properties":{"title":{"type":"string"},"year":{"type":"integer"}}}`

// genMetaDoc is a document that satisfies metaSchema
func genMetaDoc(rng *rand.Rand) []byte {
	m := map[string]any{"title": pick(rng, []string{"A title", "Über <b>&amp;</b>", "\u2028 line", "日本"}) + fmt.Sprint(rng.Intn(1000))}
	if rng.Intn(2) == 0 {
		m["year"] = json.Number(pick(rng, []string{"1984", "9007199254740993", "-1"}))
	}
	if rng.Intn(2) == 0 {
		m["nested"] = map[string]any{"a": []any{1, "x", nil, true, 1.5}, "": "empty key"}
	}
	if rng.Intn(3) == 0 {
		m["organisation"], m["organisation_address"] = pick(rng, []string{"Org & Söhne", "<org>", ""}), pick(rng, []string{"https://org.example/?a=1&b=2", "\"x\"", ""})
	}
	if rng.Intn(3) == 0 {
		m["user"], m["address"] = pick(rng, []string{"J. \"D\" <x>", "名前", ""}), pick(rng, []string{"mailto:j@example.org", "ü&", ""})
	}
	b, _ := json.MarshalIndent(m, "", pick(rng, []string{"", " ", "\t"}))
	return b
}

// richCfg is a random configuration with metadata extensions. dir: place for the metadata source file
func richCfg(rng *rand.Rand, dir string) *Cfg {
	c := &Cfg{Ver: pick(rng, []string{"1.0", "1.1"}), Digest: pick(rng, []string{"sha512", "sha256"}), Dedup: rng.Intn(4) != 0, Params: map[string]string{}}
	lay, name := layoutSpecs(rng)
	c.Layout, c.LayoutSpec = name, lay
	c.Root = append(c.Root, lay)
	if rng.Intn(2) == 0 {
		c.Root = append(c.Root, mgrSpecs(nil, nil)...)
	}
	mixed := func(s string) string {
		if rng.Intn(6) == 0 {
			return strings.ToUpper(s[:1]) + s[1:]
		}
		return s
	}
	sort := map[string][]string{}
	if rng.Intn(2) == 0 {
		c.Obj = append(c.Obj, ext("0001-digest-algorithms"))
		for _, a := range []string{"md5", "sha1", "sha256", "sha512", "blake2b-256"} {
			if rng.Intn(3) == 0 {
				c.Fixity = append(c.Fixity, a)
			}
		}
	}
	if rng.Intn(3) == 0 {
		c.Clean = true
		c.Obj = append(c.Obj, ext("NNNN-direct-clean-path-layout", "maxPathnameLen", 32000, "maxPathSegmentLen", 127, "replacementString", "_", "whitespaceReplacementString", pick(rng, []string{" ", "_"}), "utfEncode", rng.Intn(2) == 0,
			"fallbackFolder", "fallback", "fallbackTupleSize", 1, "numberOfFallbackTuples", 0))
		sort["ObjectContentPath"] = []string{"NNNN-direct-clean-path-layout", "NNNN-content-subpath"}
		c.Label += "+clean"
	}
	types := []string{"extension"}
	if rng.Intn(4) != 0 {
		c.Areas = map[string]string{"content": pick(rng, []string{"data", "a/b"}), "metadata": "meta", "extra": "x/y"}
		c.Obj = append(c.Obj, csp(c.Areas))
		c.Label += "+subpath"
		types = []string{"area", "path", "extension"}
	}
	store := func(base string) (string, string) {
		t := pick(rng, types)
		n := "metadata"
		switch t {
		case "area":
			c.Derived = append(c.Derived, path.Join(c.Areas["metadata"], base))
		case "path":
			n = pick(rng, []string{"metadata", "m/n"})
			c.Derived = append(c.Derived, path.Join(c.Areas["content"], n, base))
		case "extension":
			n = pick(rng, []string{"metadata", "m/n", "."})
		}
		c.Label += "/" + t
		return mixed(t), n
	}
	comp := func() string { return pick(rng, []string{"none", "gzip", "brotli"}) }
	have := 0
	if rng.Intn(3) != 0 {
		c.Label += "+filesystem"
		t, n := store("filesystem")
		c.HasFS = true
		c.Folders = pick(rng, []string{"", "", ".keep", "keep it"})
		c.Obj = append(c.Obj, ext("NNNN-filesystem", "folders", c.Folders, "storageType", t, "storageName", n, "compress", comp()))
		have++
	}
	if rng.Intn(3) != 0 {
		c.Label += "+indexer"
		t, n := store("indexer")
		c.Index = true
		c.Obj = append(c.Obj, ext("NNNN-indexer", "StorageType", t, "StorageName", n, "Actions", []string{"siegfried", "xml"}, "Compress", comp()))
		have++
	}
	if have == 0 || rng.Intn(2) == 0 {
		c.Label += "+metafile"
		n := pick(rng, []string{"info.json", "meta data.json"})
		t, sn := store(n)
		e := ext("NNNN-metafile", "storageType", t, "storageName", sn, "name", n, "schema", "schema.json", "schemaUrl", "http://example.org/schema.json")
		e.Files = map[string]string{"schema.json": metaSchema}
		c.Obj = append(c.Obj, e)
		c.MetaFile = filepath.Join(dir, fmt.Sprintf("metasource%d.json", rng.Int63()))
		c.Params["ext-NNNN-metafile-source"] = pick(rng, []string{"", "file://"}) + c.MetaFile
	}
	if rng.Intn(2) == 0 {
		l := []string{"NNNN-indexer", "NNNN-metafile", "NNNN-filesystem"}
		rng.Shuffle(3, func(i, j int) { l[i], l[j] = l[j], l[i] })
		sort["ObjectChange"] = l[:1+rng.Intn(3)]
	}
	if len(sort) > 0 || rng.Intn(2) == 0 {
		c.Obj = append(c.Obj, mgrSpecs(sort, nil)...)
	}
	c.Indexer = newIndexer(nil, "siegfried", "xml")
	c.Migration = &migration.Migration{Functions: map[string]*migration.Function{}}
	c.Thumb = &thumbnail.Thumbnail{Functions: map[string]*thumbnail.Function{}}
	c.genObjVer(rng)
	c.Label = fmt.Sprintf("%s/%s/%s/fix%d%s", c.Ver, c.Digest, c.Layout, len(c.Fixity), c.Label)
	return c
}
