package filepath

import (
	"io/fs"
	rfp "path/filepath"
	"sort"

	"github.com/teamlint/baron/zz_sim/os"
)

const (
	Separator     = '/'
	ListSeparator = ':'
)

var (
	ErrBadPattern = rfp.ErrBadPattern
	SkipDir       = rfp.SkipDir
	SkipAll       = fs.SkipAll
)

type WalkFunc = func(path string, info os.FileInfo, err error) error

func Base(p string) string            { return rfp.Base(p) }
func Clean(p string) string           { return rfp.Clean(p) }
func Dir(p string) string             { return rfp.Dir(p) }
func Ext(p string) string             { return rfp.Ext(p) }
func FromSlash(p string) string       { return p }
func ToSlash(p string) string         { return p }
func HasPrefix(p, q string) bool      { return len(p) >= len(q) && p[:len(q)] == q }
func IsAbs(p string) bool             { return rfp.IsAbs(p) }
func IsLocal(p string) bool           { return rfp.IsLocal(p) }
func Join(e ...string) string         { return rfp.Join(e...) }
func Match(p, n string) (bool, error) { return rfp.Match(p, n) }
func Rel(a, b string) (string, error) { return rfp.Rel(a, b) }
func Split(p string) (string, string) { return rfp.Split(p) }
func SplitList(p string) []string     { return rfp.SplitList(p) }
func VolumeName(p string) string      { return "" }

func Abs(p string) (string, error) {
	if rfp.IsAbs(p) {
		return rfp.Clean(p), nil
	}
	wd, err := os.Getwd()
	if err != nil {
		return "", err
	}
	return rfp.Join(wd, p), nil
}

func readNames(dir string) ([]string, error) {
	f, err := os.Open(dir)
	if err != nil {
		return nil, err
	}
	names, err := f.Readdirnames(-1)
	f.Close()
	if err != nil {
		return nil, err
	}
	sort.Strings(names)
	return names, nil
}

func Walk(root string, fn WalkFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walk(p string, info os.FileInfo, fn WalkFunc) error {
	if !info.IsDir() {
		return fn(p, info, nil)
	}
	names, err := readNames(p)
	err1 := fn(p, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, n := range names {
		name := Join(p, n)
		fi, err := os.Lstat(name)
		if err != nil {
			if err := fn(name, fi, err); err != nil && err != SkipDir {
				return err
			}
		} else {
			err = walk(name, fi, fn)
			if err != nil {
				if !fi.IsDir() || err != SkipDir {
					return err
				}
			}
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walkDir(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	dirs, err := os.ReadDir(p)
	if err != nil {
		err = fn(p, d, err)
		if err != nil {
			if err == SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, e := range dirs {
		if err := walkDir(Join(p, e.Name()), e, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func EvalSymlinks(p string) (string, error) {
	if _, err := os.Stat(p); err != nil {
		return "", err
	}
	for i := 0; i < 20; i++ {
		fi, err := os.Lstat(p)
		if err != nil {
			return "", err
		}
		if fi.Mode()&os.ModeSymlink == 0 {
			break
		}
		t, err := os.Readlink(p)
		if err != nil {
			return "", err
		}
		if !IsAbs(t) {
			t = Join(Dir(p), t)
		}
		p = t
	}
	dir, base := Split(p)
	dir = Clean(dir)
	if dir == "/" || dir == "." || dir == p {
		return Clean(p), nil
	}
	d, err := EvalSymlinks(dir)
	if err != nil {
		return "", err
	}
	return Join(d, base), nil
}

func Glob(pattern string) ([]string, error) {
	if _, err := Match(pattern, ""); err != nil {
		return nil, err
	}
	dir, file := Split(pattern)
	dir = Clean(dir)
	dirs := []string{dir}
	if hasMeta(dir) && dir != pattern {
		var err error
		if dirs, err = Glob(dir); err != nil {
			return nil, err
		}
	}
	var rv []string
	for _, d := range dirs {
		names, err := readNames(d)
		if err != nil {
			continue
		}
		for _, n := range names {
			if ok, _ := Match(file, n); ok {
				rv = append(rv, Join(d, n))
			}
		}
	}
	return rv, nil
}

func hasMeta(p string) bool {
	for _, c := range p {
		if c == '*' || c == '?' || c == '[' || c == '\\' {
			return true
		}
	}
	return false
}
