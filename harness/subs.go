package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	ironmaiden "github.com/je4/indexer/v3/pkg/indexer"
)

// indexAction is a stand-in for the external format recognition tools. It reads the stream it is given,
// classifies by a marker at the beginning of the content and records what it has seen.
type indexAction struct {
	name string
	seen *seenLog
	fail func(name string) error
}

type seenLog struct {
	mu   sync.Mutex
	sums []string // "name sha256" of everything streamed
}

func (s *seenLog) add(n, sum string) {
	if s == nil {
		return
	}
	s.mu.Lock()
	s.sums = append(s.sums, n+" "+sum)
	s.mu.Unlock()
}

var markerRe = regexp.MustCompile(`^PRONOM ([a-z-]+/[0-9]+)\n`)

// magics are beginnings of contents, with pronom and mime type
var magics = [][3]string{
	{"%PDF-1.4", "fmt/18", "application/pdf"},
	{"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<doc", "fmt/101", "text/xml"},
	{"\x89PNG\r\n\x1a\n", "fmt/11", "image/png"},
	{"\xff\xd8\xff", "fmt/43", "image/jpeg"},
	{"GIF8", "fmt/4", "image/gif"},
	{"BM", "fmt/116", "image/bmp"},
	{"II*\x00", "fmt/353", "image/tiff"},
	{"derived ", "x-fmt/111", "text/plain"},
}

// classify is what the stand-in reports for a content
func classify(b []byte) (pronom, mime string) {
	if m := markerRe.FindSubmatch(b); m != nil {
		return string(m[1]), "application/x-" + strings.ReplaceAll(string(m[1]), "/", "-")
	}
	for _, m := range magics {
		if strings.HasPrefix(string(b), m[0]) {
			return m[1], m[2]
		}
	}
	return "UNKNOWN", "application/x-unknown"
}

func (a *indexAction) Stream(contentType string, reader io.Reader, filename string) (*ironmaiden.ResultV2, error) {
	b, err := io.ReadAll(reader)
	if err != nil {
		return nil, err
	}
	if a.fail != nil {
		if err := a.fail(filename); err != nil {
			return nil, err
		}
	}
	h := sha256.Sum256(b)
	a.seen.add(filename, hex.EncodeToString(h[:]))
	r := ironmaiden.NewResultV2()
	p, m := classify(b)
	r.Pronom, r.Pronoms = p, []string{p}
	r.Mimetype, r.Mimetypes = m, []string{m}
	r.Width, r.Height = uint(len(b)%97), uint(len(b)%89)
	r.Checksum["sha256"] = hex.EncodeToString(h[:])
	r.Metadata[a.name] = map[string]any{"seen": len(b), "sha256": hex.EncodeToString(h[:])}
	if a.name == "siegfried" {
		// shaped like the results of siegfried
		l := []any{map[string]any{"Namespace": "pronom", "ID": p, "Name": "Format <" + p + "> & \"more\"", "Basis": []string{"extension match", "byte match <&>"}}}
		if h[2]%4 == 0 {
			l = append(l, map[string]any{"Namespace": "pronom", "ID": "fmt/" + strconv.Itoa(int(h[3])), "Name": "", "Warning": "x"})
		}
		r.Metadata[a.name] = l
	} else if h[0]%13 == 0 {
		// full texts and other large results
		r.Metadata[a.name].(map[string]any)["text"] = strings.Repeat("full text ", 7000+int(h[1])*30)
	}
	return r, nil
}
func (a *indexAction) DoV2(filename string) (*ironmaiden.ResultV2, error) {
	return nil, fmt.Errorf("not supported")
}
func (a *indexAction) CanHandle(contentType string, filename string) bool { return true }
func (a *indexAction) Do(uri *url.URL, contentType string, width *uint, height *uint, duration *time.Duration, checksums map[string]string) (interface{}, []string, []string, error) {
	return nil, nil, nil, fmt.Errorf("not supported")
}
func (a *indexAction) GetName() string                      { return a.name }
func (a *indexAction) GetCaps() ironmaiden.ActionCapability { return ironmaiden.ACTSTREAM }
func (a *indexAction) GetWeight() uint                      { return 10 }

// newIndexer makes a dispatcher with stand-in actions
func newIndexer(seen *seenLog, names ...string) *ironmaiden.ActionDispatcher {
	ad := ironmaiden.NewActionDispatcher(map[int]ironmaiden.MimeWeightString{})
	for _, n := range names {
		ad.RegisterAction(&indexAction{name: n, seen: seen})
	}
	return ad
}
