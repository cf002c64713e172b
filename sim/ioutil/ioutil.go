package ioutil

import (
	"io"
	rio "io/ioutil"
	"sort"

	"github.com/teamlint/baron/zz_sim/os"
)

var Discard = rio.Discard

func ReadAll(r io.Reader) ([]byte, error)                  { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser                  { return io.NopCloser(r) }
func ReadFile(name string) ([]byte, error)                 { return os.ReadFile(name) }
func WriteFile(name string, b []byte, m os.FileMode) error { return os.WriteFile(name, b, m) }
func TempFile(dir, pattern string) (*os.File, error)       { return os.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)          { return os.MkdirTemp(dir, pattern) }

func ReadDir(name string) ([]os.FileInfo, error) {
	f, err := os.Open(name)
	if err != nil {
		return nil, err
	}
	l, err := f.Readdir(-1)
	f.Close()
	if err != nil {
		return nil, err
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return l, nil
}
