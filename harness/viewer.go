package main

// the display server on a loopback address

import (
	"context"
	"fmt"
	"io"
	"io/fs"
	"net/http"
	"net/url"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gin-gonic/gin"
	"github.com/je4/gocfl/v2/data/displaydata"
	"github.com/je4/gocfl/v2/gocfl/cmd/display"
	"github.com/je4/gocfl/v2/pkg/ocfl"
)

var viewerOnce sync.Once
var viewerN atomic.Int64

type viewer struct {
	base   string
	client *http.Client
	srv    *display.Server
	gone   chan error
}

// startViewer serves the storage root on an address of its own
func startViewer(sr ocfl.StorageRoot) (*viewer, error) {
	viewerOnce.Do(func() {
		gin.DefaultWriter = io.Discard
		gin.DefaultErrorWriter = io.Discard
		gin.SetMode(gin.ReleaseMode)
	})
	tpl, err := fs.Sub(displaydata.TemplateRoot, "templates")
	if err != nil {
		return nil, fmt.Errorf("harness: %w", err)
	}
	for try := 0; try < 20; try++ {
		n := viewerN.Add(1)
		pid := os.Getpid()
		addr := fmt.Sprintf("127.%d.%d.%d:%d", 1+pid%250, 1+(n/250)%250, 1+n%250, 20000+(pid/250+try*977)%30000)
		u, _ := url.Parse("http://" + addr)
		srv, err := display.NewServer(sr, "gocfl", addr, u, displaydata.WebRoot, tpl, nopLogger(), io.Discard)
		if err != nil {
			return nil, err
		}
		v := &viewer{base: "http://" + addr, srv: srv, gone: make(chan error, 1)}
		go func() { v.gone <- srv.ListenAndServe("", "") }()
		v.client = &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{DisableCompression: true, MaxIdleConnsPerHost: 32}, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
		for i := 0; i < 500; i++ {
			select {
			case <-v.gone:
				i = 500
				continue
			default:
			}
			if code, b, err := v.get("/ping"); err == nil && code == 200 && string(b) == "pong" {
				return v, nil
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
	return nil, fmt.Errorf("harness: no address for the viewer")
}

func (v *viewer) get(p string) (int, []byte, error) {
	resp, err := v.client.Get(v.base + p)
	if err != nil {
		return 0, nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, b, err
}

func (v *viewer) stop() {
	v.client.CloseIdleConnections()
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	v.srv.Shutdown(ctx)
	<-v.gone
}
