package main

// reports of the race detector

import (
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

var raceFrame = regexp.MustCompile(`(?m)^  (github\.com/je4/gocfl/v2/(?:pkg|gocfl)/\S+)\(`)

var raceHarness = regexp.MustCompile(`(?m)by (?:main )?goroutine[^\n]*:\n  main\.`)

// raceReports turns reports of the race detector that involve gocfl into violations
func (r *Run) raceReports() {
	if !raceEnabled {
		r.Count("race_detector_off", 1)
		return
	}
	files, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_BIN"), "race.*"))
	sort.Strings(files)
	n := 0
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, rep := range strings.Split(string(b), "==================") {
			if !strings.Contains(rep, "DATA RACE") {
				continue
			}
			// the frames of the two accesses, up to the creation of the goroutines
			acc := rep
			if i := strings.Index(rep, "\nGoroutine "); i >= 0 {
				acc = rep[:i]
			}
			if strings.Contains(acc, "gin.SetMode()") {
				// several servers in one process: never outside of this harness
				continue
			}
			if raceHarness.MatchString(acc) {
				// an access of the harness itself
				continue
			}
			m := raceFrame.FindAllStringSubmatch(acc, -1)
			if len(m) == 0 {
				continue
			}
			n++
			site := strings.TrimPrefix(m[0][1], "github.com/je4/gocfl/v2/")
			r.Violate("race:"+site, "data race: "+clip(strings.TrimSpace(rep), 3500), nil)
		}
	}
	r.Count("race_reports", n)
	r.Count("race_detector_on", 1)
}
