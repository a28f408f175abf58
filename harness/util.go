package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"fmt"
	"hash"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/crypto/blake2b"
)

func sortStrings(s []string) { sort.Strings(s) }

func sortedKeys[V any](m map[string]V) []string {
	k := make([]string, 0, len(m))
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

// own hash table, independent of je4/utils
func newHash(alg string) hash.Hash {
	switch alg {
	case "md5":
		return md5.New()
	case "sha1":
		return sha1.New()
	case "sha256":
		return sha256.New()
	case "sha512":
		return sha512.New()
	case "blake2b-160":
		h, _ := blake2b.New(20, nil)
		return h
	case "blake2b-256":
		h, _ := blake2b.New256(nil)
		return h
	case "blake2b-384":
		h, _ := blake2b.New384(nil)
		return h
	case "blake2b-512":
		h, _ := blake2b.New512(nil)
		return h
	}
	return nil
}

func digest(alg string, b []byte) string {
	h := newHash(alg)
	if h == nil {
		return ""
	}
	h.Write(b)
	return hex.EncodeToString(h.Sum(nil))
}

// Tree is a snapshot of a directory: files with content, directories with nil and trailing slash.
type Tree map[string][]byte

func readTree(dir string) Tree {
	t := Tree{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		rel = filepath.ToSlash(rel)
		if rel == "." {
			return nil
		}
		if fi.IsDir() {
			t[rel+"/"] = nil
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			b = []byte("UNREADABLE")
		}
		if b == nil {
			b = []byte{}
		}
		t[rel] = b
		return nil
	})
	return t
}

func writeTree(dir string, t Tree) error {
	for _, p := range sortedKeys(t) {
		if strings.HasSuffix(p, "/") {
			if err := os.MkdirAll(filepath.Join(dir, p), 0755); err != nil {
				return err
			}
			continue
		}
		fp := filepath.Join(dir, p)
		if err := os.MkdirAll(filepath.Dir(fp), 0755); err != nil {
			return err
		}
		if err := os.WriteFile(fp, t[p], 0644); err != nil {
			return err
		}
	}
	return nil
}

func (t Tree) clone() Tree {
	n := Tree{}
	for k, v := range t {
		n[k] = v
	}
	return n
}

func (t Tree) files() Tree {
	n := Tree{}
	for k, v := range t {
		if !strings.HasSuffix(k, "/") {
			n[k] = v
		}
	}
	return n
}

// sub returns the entries below prefix (without it)
func (t Tree) sub(prefix string) Tree {
	n := Tree{}
	for k, v := range t {
		if strings.HasPrefix(k, prefix+"/") && k != prefix+"/" {
			n[k[len(prefix)+1:]] = v
		}
	}
	return n
}

// diffTrees lists differences a->b
func diffTrees(a, b Tree) []string {
	var d []string
	for _, k := range sortedKeys(a) {
		v, ok := b[k]
		if !ok {
			d = append(d, "removed "+k)
		} else if !bytes.Equal(a[k], v) {
			d = append(d, fmt.Sprintf("changed %s (%d -> %d bytes)", k, len(a[k]), len(v)))
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok {
			d = append(d, "added "+k)
		}
	}
	return d
}

func first(s []string, n int) []string {
	if len(s) > n {
		return append(append([]string{}, s[:n]...), fmt.Sprintf("… %d more", len(s)-n))
	}
	return s
}

func pick[T any](rng *rand.Rand, s []T) T { return s[rng.Intn(len(s))] }

func randBytes(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	return b
}
