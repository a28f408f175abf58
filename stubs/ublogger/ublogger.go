// Package ublogger stands in for the private gitlab.switch.ch/ub-unibas/go-ublogger
// module, which cannot be fetched here. It provides only what gocfl/cmd calls and
// writes the log to the log file, or to stderr when no file is given.
package ublogger

import (
	"crypto/tls"
	"io"
	"os"
	"strings"

	"github.com/rs/zerolog"
)

type Option func()

func SetDataset(string) Option                                  { return func() {} }
func SetLogStash(host string, port int, ns, level string) Option { return func() {} }
func SetTLS(bool) Option                                        { return func() {} }
func SetTLSConfig(*tls.Config) Option                           { return func() {} }

func CreateUbMultiLoggerTLS(level, file string, opts ...Option) (zerolog.Logger, io.Closer, io.Closer) {
	var out io.Writer = os.Stderr
	var closer io.Closer
	if file != "" {
		if fp, err := os.OpenFile(file, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
			out, closer = fp, fp
		}
	}
	lvl, err := zerolog.ParseLevel(strings.ToLower(level))
	if err != nil {
		lvl = zerolog.ErrorLevel
	}
	return zerolog.New(out).Level(lvl), nil, closer
}
