package main

// A writer of OCFL storage roots that is independent of gocfl: it produces conforming objects with the
// features the specification allows, most of which gocfl itself never writes.

import (
	"crypto/sha512"
	"encoding/json"
	"fmt"
	"math/rand"
	"path"
	"strings"
	"time"
)

type fVer struct {
	State   map[string][]byte
	Msg     string
	HasMsg  bool
	User    string
	Addr    string
	HasUser bool
	Created string
}

type fObj struct {
	ID      string
	Ver     string // OCFL version of the object
	Digest  string
	Pad     int // width of version numbers, 0 = none
	CD      string
	HasCD   bool
	Vers    []fVer
	Fixity  []string
	Upper   bool     // upper-case digests
	NoInv   []bool   // per version: no inventory in the version directory
	OldDig  string   // digest algorithm of the inventories of older versions
	OldVer  string   // OCFL version of the inventories of older versions
	Dup     bool     // several content paths per digest
	Logs    bool     // logs directory
	Exts    bool     // extension directory without content known to gocfl
	EmptyEx bool     // empty extensions directory
	Side    string   // separator in sidecar
	Unknown bool     // fixity block with unknown algorithm
	Content []fcont  // content files in order
	Feat    []string // names of the features
}

type fcont struct {
	Path string
	Data []byte
	Ver  int
}

func (o *fObj) vname(i int) string {
	if o.Pad > 0 {
		return fmt.Sprintf("v%0*d", o.Pad, i+1)
	}
	return fmt.Sprintf("v%d", i+1)
}

func (o *fObj) cd() string {
	if o.HasCD {
		return o.CD
	}
	return "content"
}

func genForeign(rng *rand.Rand, id string, rootVer string) *fObj {
	return genForeignLong(rng, id, rootVer, false)
}

// genForeignLong: long objects have zero-padded version numbers which are about to get a further digit, or are exhausted
func genForeignLong(rng *rand.Rand, id string, rootVer string, long bool) *fObj {
	o := &fObj{ID: id, Digest: pick(rng, []string{"sha512", "sha256"}), Side: pick(rng, []string{" ", "  ", "\t"})}
	o.Ver = rootVer
	if rootVer == "1.1" && rng.Intn(3) == 0 {
		o.Ver = "1.0"
	}
	feat := func(n string, p int) bool {
		if rng.Intn(p) == 0 {
			o.Feat = append(o.Feat, n)
			return true
		}
		return false
	}
	nv := 1 + rng.Intn(4)
	if feat("manyversions", 12) {
		nv = 9 + rng.Intn(4)
	}
	if feat("padded", 4) {
		o.Pad = 2 + rng.Intn(4)
		if o.Pad == 2 && nv > 9 {
			o.Pad = 3
		}
	}
	if long {
		o.Feat = append(o.Feat, "long")
		o.Pad = 2 + rng.Intn(4)
		nv = 6 + rng.Intn(4)
	}
	if feat("contentdir", 4) {
		o.HasCD = true
		o.CD = pick(rng, []string{"data", "c", "content", "my content", "v1", "..x"})
	}
	o.Upper = feat("upper", 5)
	o.Dup = feat("dup", 4)
	o.Logs = feat("logs", 5)
	o.Exts = feat("foreignext", 6)
	o.EmptyEx = !o.Exts && feat("emptyext", 4)
	o.Unknown = feat("unknownfixity", 6)
	if feat("fixity", 2) {
		for _, a := range []string{"md5", "sha1", "sha256", "sha512", "blake2b-160", "blake2b-256", "blake2b-384", "blake2b-512"} {
			if rng.Intn(3) == 0 {
				o.Fixity = append(o.Fixity, a)
			}
		}
	}
	if nv > 1 && feat("olddigest", 4) {
		o.OldDig = map[string]string{"sha512": "sha256", "sha256": "sha512"}[o.Digest]
	}
	if nv > 1 && o.Ver == "1.1" && feat("oldspec", 4) {
		o.OldVer = "1.0"
	}
	noinv := nv > 1 && feat("noverinv", 4)
	g := nameGen{odd: true}
	state := map[string][]byte{}
	t := time.Date(2018, 10, 2, 10, 0, 0, 0, time.UTC)
	for i := 0; i < nv; i++ {
		ns := map[string][]byte{}
		for k, v := range state {
			if rng.Intn(5) != 0 {
				ns[k] = v
			}
		}
		n := rng.Intn(4)
		if i == 0 && n == 0 {
			n = 1
		}
		for k := 0; k < n; k++ {
			name := g.file(rng)
			conf := false
			for e := range ns {
				if strings.HasPrefix(e, name+"/") || strings.HasPrefix(name, e+"/") {
					conf = true
				}
			}
			if conf {
				continue
			}
			c := genContent(rng)
			if len(c) > 5000 {
				c = c[:5000]
			}
			ns[name] = c
		}
		state = ns
		t = t.Add(time.Duration(rng.Intn(1000000)) * time.Second)
		v := fVer{State: ns, Created: t.Format(pick(rng, []string{time.RFC3339, "2006-01-02T15:04:05.999999Z07:00", "2006-01-02T15:04:05.000Z07:00"}))}
		if rng.Intn(4) == 0 {
			v.Created = t.In(time.FixedZone("x", 3600*(rng.Intn(20)-10))).Format(time.RFC3339)
		}
		if rng.Intn(5) != 0 {
			v.HasMsg, v.Msg = true, pick(rng, msgs)
		}
		if rng.Intn(5) != 0 {
			v.HasUser, v.User, v.Addr = true, pick(rng, users), pick(rng, addrs)
		}
		o.Vers = append(o.Vers, v)
		o.NoInv = append(o.NoInv, noinv && i < nv-1 && rng.Intn(2) == 0)
	}
	o.layContent(rng)
	return o
}

// layContent decides where the content of the states is stored
func (o *fObj) layContent(rng *rand.Rand) {
	o.Content = nil
	have := map[string]bool{}
	used := map[string]bool{}
	seq := 0
	for i, v := range o.Vers {
		for _, p := range sortedKeys(v.State) {
			d := digest("sha256", v.State[p])
			prevHas := have[d]
			if prevHas && !(o.Dup && rng.Intn(3) == 0) {
				continue
			}
			cp := p
			if rng.Intn(3) == 0 {
				seq++
				cp = fmt.Sprintf("obj/%d.bin", seq)
			}
			full := path.Join(o.vname(i), o.cd(), cp)
			conf := used[full]
			for u := range used {
				if strings.HasPrefix(u, full+"/") || strings.HasPrefix(full, u+"/") {
					conf = true
				}
			}
			if conf {
				seq++
				full = path.Join(o.vname(i), o.cd(), fmt.Sprintf("u%d", seq), fmt.Sprintf("%d", seq))
			}
			if prevHas && len(v.State[p]) == 0 {
				continue
			}
			used[full] = true
			have[d] = true
			o.Content = append(o.Content, fcont{full, v.State[p], i})
		}
	}
}

func (o *fObj) dg(alg string, b []byte, i int) string {
	d := digest(alg, b)
	if o.Upper {
		return strings.ToUpper(d)
	}
	return d
}

// inventory as of version upto (0-based)
func (o *fObj) inventory(upto int, alg, spec string) map[string]any {
	man := map[string]any{}
	for _, c := range o.Content {
		if c.Ver > upto {
			continue
		}
		d := o.dg(alg, c.Data, 0)
		l, _ := man[d].([]any)
		man[d] = append(l, c.Path)
	}
	vers := map[string]any{}
	for i := 0; i <= upto; i++ {
		v := o.Vers[i]
		st := map[string]any{}
		for _, p := range sortedKeys(v.State) {
			d := o.dg(alg, v.State[p], 0)
			l, _ := st[d].([]any)
			st[d] = append(l, p)
		}
		m := map[string]any{"created": v.Created, "state": st}
		if v.HasMsg {
			m["message"] = v.Msg
		}
		if v.HasUser {
			u := map[string]any{"name": v.User}
			if v.Addr != "" {
				u["address"] = v.Addr
			}
			m["user"] = u
		}
		vers[o.vname(i)] = m
	}
	inv := map[string]any{
		"id": o.ID, "type": "https://ocfl.io/" + spec + "/spec/#inventory", "digestAlgorithm": alg,
		"head": o.vname(upto), "manifest": man, "versions": vers,
	}
	if o.HasCD {
		inv["contentDirectory"] = o.CD
	}
	fix := map[string]any{}
	for _, a := range o.Fixity {
		m := map[string]any{}
		for k, c := range o.Content {
			if c.Ver > upto || k%4 == 3 {
				continue
			}
			d := o.dg(a, c.Data, 0)
			l, _ := m[d].([]any)
			m[d] = append(l, c.Path)
		}
		if len(m) > 0 {
			fix[a] = m
		}
	}
	if o.Unknown {
		// registered algorithms (extensions 0001 and 0009) gocfl has no hash function for
		m, size := map[string]any{}, map[string]any{}
		for _, c := range o.Content {
			if c.Ver <= upto {
				d := fmt.Sprintf("%x", sha512.Sum512_256(c.Data))
				l, _ := m[d].([]any)
				m[d] = append(l, c.Path)
				n := fmt.Sprint(len(c.Data))
				l, _ = size[n].([]any)
				size[n] = append(l, c.Path)
			}
		}
		if len(m) > 0 {
			fix["sha512/256"] = m
			fix["size"] = size
		}
	}
	if len(fix) > 0 {
		inv["fixity"] = fix
	}
	return inv
}

func jsonBytes(v any) []byte {
	b, _ := json.MarshalIndent(v, "", " ")
	return append(b, '\n')
}

// tree renders the object
func (o *fObj) tree() Tree {
	t := Tree{}
	t["0=ocfl_object_"+o.Ver] = []byte("ocfl_object_" + o.Ver + "\n")
	for _, c := range o.Content {
		t[c.Path] = c.Data
	}
	for i := range o.Vers {
		last := i == len(o.Vers)-1
		alg, spec := o.Digest, o.Ver
		if !last && o.OldDig != "" {
			alg = o.OldDig
		}
		if !last && o.OldVer != "" {
			spec = o.OldVer
		}
		b := jsonBytes(o.inventory(i, alg, spec))
		side := []byte(digest(alg, b) + o.Side + "inventory.json\n")
		if !o.NoInv[i] {
			t[o.vname(i)+"/inventory.json"] = b
			t[o.vname(i)+"/inventory.json."+alg] = side
		} else {
			t[o.vname(i)+"/"] = nil
		}
		if last {
			t["inventory.json"] = b
			t["inventory.json."+alg] = side
		}
	}
	if o.Logs {
		t["logs/2020.log"] = []byte("log\n")
		t["logs/deep/x.txt"] = []byte("x")
	}
	if o.Exts {
		t["extensions/0000-example/config.json"] = []byte("{\"extensionName\": \"0000-example\", \"firstExampleParameter\": 12}\n")
		t["extensions/0000-example/data.txt"] = []byte("x")
	}
	if o.EmptyEx {
		t["extensions/"] = nil
	}
	return t
}

// foreignRoot makes a storage root. Layout: none declared (objects are found by enumeration)
func foreignRoot(rng *rand.Rand, nobj int) (Tree, []*fObj, []string, string) {
	return foreignRootLong(rng, nobj, false)
}

func foreignRootLong(rng *rand.Rand, nobj int, long bool) (Tree, []*fObj, []string, string) {
	ver := pick(rng, []string{"1.0", "1.1", "1.1"})
	t := Tree{"0=ocfl_" + ver: []byte("ocfl_" + ver + "\n")}
	if rng.Intn(3) == 0 {
		t["README.txt"] = []byte("This is a storage root.\n")
	}
	if rng.Intn(3) == 0 {
		t["ocfl_"+ver+".txt"] = []byte("the specification\n")
	}
	if rng.Intn(4) == 0 {
		t["extensions/"] = nil
	} else if rng.Intn(3) == 0 {
		t["extensions/0002-flat-direct-storage-layout/config.json"] = []byte("{\"extensionName\": \"0002-flat-direct-storage-layout\"}\n")
		t["ocfl_layout.json"] = []byte("{\"extension\": \"0002-flat-direct-storage-layout\", \"description\": \"flat\"}\n")
	}
	var objs []*fObj
	var paths []string
	for i := 0; i < nobj; i++ {
		o := genForeignLong(rng, fmt.Sprintf("%s%d", pick(rng, []string{"urn:x:", "info:a/", "über "}), i), ver, long && i == 0)
		p := pick(rng, []string{"o%d", "a/b%d", "d/e/f%d", "..s%d"})
		p = fmt.Sprintf(p, i)
		for k, v := range o.tree() {
			t[p+"/"+k] = v
		}
		objs = append(objs, o)
		paths = append(paths, p)
	}
	return t, objs, paths, ver
}
