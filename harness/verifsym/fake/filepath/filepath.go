// Package filepath is path/filepath with the functions that read directories over the file system in memory.
package filepath

import (
	real "path/filepath"

	"github.com/sencha-dev/powkit/internal/verifsym/fake/os"
)

const Separator = '/'

var ErrBadPattern = real.ErrBadPattern

func Join(l ...string) string                  { return real.Join(l...) }
func Dir(p string) string                      { return real.Dir(p) }
func Base(p string) string                     { return real.Base(p) }
func Ext(p string) string                      { return real.Ext(p) }
func Clean(p string) string                    { return real.Clean(p) }
func ToSlash(p string) string                  { return p }
func FromSlash(p string) string                { return p }
func Abs(p string) (string, error)             { return real.Clean(p), nil }
func IsAbs(p string) bool                      { return len(p) > 0 && p[0] == '/' }
func Match(pattern, name string) (bool, error) { return real.Match(pattern, name) }
func Rel(base, target string) (string, error)  { return real.Rel(base, target) }

// Glob lists the files matching pattern.
func Glob(pattern string) ([]string, error) {
	var out []string
	for _, n := range os.Names() {
		ok, err := real.Match(pattern, n)
		if err != nil {
			return nil, err
		}
		if ok {
			out = append(out, n)
		}
	}
	return out, nil
}
