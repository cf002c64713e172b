// Package os is the simulated version of package os: same names, every effect
// goes to the simulated process and disk.
package os

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	ros "os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/teamlint/baron/zz_sim/k"
)

type (
	FileInfo     = ros.FileInfo
	FileMode     = ros.FileMode
	DirEntry     = ros.DirEntry
	PathError    = ros.PathError
	LinkError    = ros.LinkError
	SyscallError = ros.SyscallError
	Signal       = ros.Signal
	Process      struct{ Pid int }
)

const (
	O_RDONLY = ros.O_RDONLY
	O_WRONLY = ros.O_WRONLY
	O_RDWR   = ros.O_RDWR
	O_APPEND = ros.O_APPEND
	O_CREATE = ros.O_CREATE
	O_EXCL   = ros.O_EXCL
	O_SYNC   = ros.O_SYNC
	O_TRUNC  = ros.O_TRUNC

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	PathSeparator     = '/'
	PathListSeparator = ':'
	DevNull           = "/dev/null"

	ModeDir        = ros.ModeDir
	ModeAppend     = ros.ModeAppend
	ModeExclusive  = ros.ModeExclusive
	ModeTemporary  = ros.ModeTemporary
	ModeSymlink    = ros.ModeSymlink
	ModeDevice     = ros.ModeDevice
	ModeNamedPipe  = ros.ModeNamedPipe
	ModeSocket     = ros.ModeSocket
	ModeSetuid     = ros.ModeSetuid
	ModeSetgid     = ros.ModeSetgid
	ModeCharDevice = ros.ModeCharDevice
	ModeSticky     = ros.ModeSticky
	ModeIrregular  = ros.ModeIrregular
	ModeType       = ros.ModeType
	ModePerm       = ros.ModePerm
)

var (
	ErrInvalid          = ros.ErrInvalid
	ErrPermission       = ros.ErrPermission
	ErrExist            = ros.ErrExist
	ErrNotExist         = ros.ErrNotExist
	ErrClosed           = ros.ErrClosed
	ErrNoDeadline       = ros.ErrNoDeadline
	ErrDeadlineExceeded = ros.ErrDeadlineExceeded
	ErrProcessDone      = ros.ErrProcessDone
)

var (
	Interrupt Signal = syscall.SIGINT
	Kill      Signal = syscall.SIGKILL
)

// Per-process variables (saved and restored with the process).
var (
	Args   = []string{"baron"}
	Stdin  = &File{std: 1, name: "/dev/stdin"}
	Stdout = &File{std: 2, name: "/dev/stdout"}
	Stderr = &File{std: 3, name: "/dev/stderr"}
)

func init() {
	k.SetStd = func(p *k.Proc) {
		Args = append([]string(nil), p.Args...)
		Stdin = &File{std: 1, name: "/dev/stdin"}
		Stdout = &File{std: 2, name: "/dev/stdout"}
		Stderr = &File{std: 3, name: "/dev/stderr"}
	}
}

// SimGlobals returns pointers to the per-process variables.
func SimGlobals() []interface{} { return []interface{}{&Args, &Stdin, &Stdout, &Stderr} }

func IsExist(err error) bool                    { return ros.IsExist(err) }
func IsNotExist(err error) bool                 { return ros.IsNotExist(err) }
func IsPermission(err error) bool               { return ros.IsPermission(err) }
func IsTimeout(err error) bool                  { return ros.IsTimeout(err) }
func IsPathSeparator(c uint8) bool              { return c == '/' }
func NewSyscallError(s string, err error) error { return ros.NewSyscallError(s, err) }

func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(*k.Info)
	y, ok2 := b.(*k.Info)
	return ok1 && ok2 && x.ID() == y.ID()
}

func self() *k.Proc {
	p := k.Self()
	if p == nil {
		panic("simulated os used outside a simulated process")
	}
	return p
}

func perr(op, name string, err error) error {
	if err == nil {
		return nil
	}
	return &PathError{Op: op, Path: name, Err: err}
}

// File is an open file.
type File struct {
	h    *k.Handle
	name string
	std  int
	pipe *pipe
}

type pipe struct {
	buf    []byte
	closed bool
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if name == DevNull {
		return &File{std: 4, name: name}, nil
	}
	h, err := self().Open(name, flag, perm)
	if err != nil {
		return nil, perr("open", name, err)
	}
	return &File{h: h, name: name}, nil
}

func NewFile(fd uintptr, name string) *File {
	if fd <= 2 {
		return &File{std: int(fd) + 1, name: name}
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return ^uintptr(0) }

func (f *File) check(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.h == nil && f.std == 0 && f.pipe == nil {
		return perr(op, f.name, ErrClosed)
	}
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	switch {
	case f.std == 1:
		p := self()
		if p.Stdin == "" {
			return 0, io.EOF
		}
		n := copy(b, p.Stdin)
		p.Stdin = p.Stdin[n:]
		return n, nil
	case f.std != 0:
		return 0, io.EOF
	case f.pipe != nil:
		n := copy(b, f.pipe.buf)
		f.pipe.buf = f.pipe.buf[n:]
		if n == 0 && len(b) > 0 {
			return 0, io.EOF
		}
		return n, nil
	}
	n, err := self().Read(f.h, b)
	if err != nil {
		return n, perr("read", f.name, err)
	}
	if n == 0 && len(b) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	done := 0
	for done < len(b) {
		n, err := self().ReadAt(f.h, b[done:], off+int64(done))
		done += n
		if err != nil {
			return done, perr("read", f.name, err)
		}
		if n == 0 {
			return done, io.EOF
		}
	}
	return done, nil
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	return io.Copy(onlyWriter{f}, r)
}

type onlyWriter struct{ io.Writer }
type onlyReader struct{ io.Reader }

func (f *File) WriteTo(w io.Writer) (int64, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	return io.Copy(w, onlyReader{f})
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	switch {
	case f.std == 2:
		return self().Stdout.Write(b)
	case f.std == 3:
		return self().Stderr.Write(b)
	case f.std != 0:
		return len(b), nil
	case f.pipe != nil:
		f.pipe.buf = append(f.pipe.buf, b...)
		return len(b), nil
	}
	done := 0
	for {
		n, err := self().Write(f.h, b[done:])
		done += n
		if err != nil {
			return done, perr("write", f.name, err)
		}
		if done >= len(b) {
			return done, nil
		}
		if n == 0 {
			return done, perr("write", f.name, io.ErrUnexpectedEOF)
		}
	}
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	n, err := self().WriteAt(f.h, b, off)
	return n, perr("write", f.name, err)
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	if f.h == nil {
		return 0, perr("seek", f.name, syscall.ESPIPE)
	}
	n := off
	switch whence {
	case 1:
		n += f.h.Off
	case 2:
		n += int64(len(f.h.N.Data))
	}
	if n < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.h.Off = n
	*f.h.DirPos() = 0
	return n, nil
}

func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if f.std != 0 || f.pipe != nil {
		if f.pipe != nil {
			f.pipe.closed = true
		}
		return nil
	}
	if f.h == nil || f.h.Closed {
		return perr("close", f.name, ErrClosed)
	}
	return perr("close", f.name, self().Close(f.h))
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if f.h == nil {
		return nil
	}
	return perr("sync", f.name, self().Sync(f.h))
}

func (f *File) Stat() (FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if f.h == nil {
		return nil, perr("stat", f.name, syscall.EINVAL)
	}
	i, err := self().Fstat(f.h)
	if err != nil {
		return nil, perr("stat", f.name, err)
	}
	return i, nil
}

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	return perr("truncate", f.name, self().Truncate("", f.h, size))
}

func (f *File) Chmod(m FileMode) error {
	if err := f.check("chmod"); err != nil {
		return err
	}
	return perr("chmod", f.name, self().Chmod("", f.h, m))
}

func (f *File) Chown(uid, gid int) error           { return perr("chown", f.name, self().Touch("", f.h)) }
func (f *File) Chdir() error                       { return Chdir(f.name) }
func (f *File) SetDeadline(t time.Time) error      { return ErrNoDeadline }
func (f *File) SetReadDeadline(t time.Time) error  { return ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error { return ErrNoDeadline }

func (f *File) Readdirnames(n int) ([]string, error) {
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	names, err := self().ReadDirNames(f.h)
	if err != nil {
		return nil, perr("readdirent", f.name, err)
	}
	pos := f.h.DirPos()
	rest := names[*pos:]
	if n > 0 {
		if len(rest) == 0 {
			return nil, io.EOF
		}
		if len(rest) > n {
			rest = rest[:n]
		}
	}
	*pos += len(rest)
	return append([]string{}, rest...), nil
}

func (f *File) Readdir(n int) ([]FileInfo, error) {
	names, err := f.Readdirnames(n)
	if err != nil {
		return nil, err
	}
	var rv []FileInfo
	for _, nm := range names {
		fi, err := Lstat(f.h.Abs + "/" + nm)
		if IsNotExist(err) {
			continue
		}
		if err != nil {
			return rv, err
		}
		rv = append(rv, fi)
	}
	return rv, nil
}

func (f *File) ReadDir(n int) ([]DirEntry, error) {
	names, err := f.Readdirnames(n)
	if err != nil {
		return nil, err
	}
	var rv []DirEntry
	for _, nm := range names {
		fi, err := Lstat(f.h.Abs + "/" + nm) // Linux gets the type from the directory; the extra stat is harmless
		if IsNotExist(err) {
			continue
		}
		if err != nil {
			return rv, err
		}
		rv = append(rv, fs.FileInfoToDirEntry(fi))
	}
	return rv, nil
}

func ReadDir(name string) ([]DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	d, err := f.ReadDir(-1)
	sort.Slice(d, func(i, j int) bool { return d[i].Name() < d[j].Name() })
	return d, err
}

func Stat(name string) (FileInfo, error) {
	i, err := self().Stat(name, true)
	if err != nil {
		return nil, perr("stat", name, err)
	}
	return i, nil
}

func Lstat(name string) (FileInfo, error) {
	i, err := self().Stat(name, false)
	if err != nil {
		return nil, perr("lstat", name, err)
	}
	return i, nil
}

func Mkdir(name string, perm FileMode) error { return perr("mkdir", name, self().Mkdir(name, perm)) }

func MkdirAll(p string, perm FileMode) error {
	fi, err := Stat(p)
	if err == nil {
		if fi.IsDir() {
			return nil
		}
		return perr("mkdir", p, syscall.ENOTDIR)
	}
	i := len(p)
	for i > 0 && p[i-1] == '/' {
		i--
	}
	j := i
	for j > 0 && p[j-1] != '/' {
		j--
	}
	if j > 1 {
		if err := MkdirAll(p[:j-1], perm); err != nil {
			return err
		}
	}
	err = Mkdir(p, perm)
	if err != nil {
		fi, err1 := Lstat(p)
		if err1 == nil && fi.IsDir() {
			return nil
		}
		return err
	}
	return nil
}

func Remove(name string) error {
	e := self().Unlink(name)
	if e == nil {
		return nil
	}
	e1 := self().Rmdir(name)
	if e1 == nil {
		return nil
	}
	if e1 != syscall.ENOTDIR {
		e = e1
	}
	return perr("remove", name, e)
}

func RemoveAll(p string) error {
	if p == "" {
		return nil
	}
	if p == "." || strings.HasSuffix(p, "/.") {
		return perr("RemoveAll", p, syscall.EINVAL)
	}
	err := Remove(p)
	if err == nil || IsNotExist(err) {
		return nil
	}
	fi, serr := Lstat(p)
	if serr != nil {
		if IsNotExist(serr) {
			return nil
		}
		return serr
	}
	if !fi.IsDir() {
		return err
	}
	f, oerr := Open(p)
	if oerr != nil {
		if IsNotExist(oerr) {
			return nil
		}
		return oerr
	}
	names, rerr := f.Readdirnames(-1)
	f.Close()
	var first error
	if rerr != nil {
		first = rerr
	}
	for _, n := range names {
		if e := RemoveAll(p + "/" + n); e != nil && first == nil {
			first = e
		}
	}
	e := Remove(p)
	if e == nil || IsNotExist(e) {
		return nil
	}
	if first == nil {
		first = e
	}
	return first
}

func Rename(a, b string) error {
	if err := self().Rename(a, b); err != nil {
		return &LinkError{Op: "rename", Old: a, New: b, Err: err}
	}
	return nil
}

func Link(a, b string) error {
	if err := self().Link(a, b); err != nil {
		return &LinkError{Op: "link", Old: a, New: b, Err: err}
	}
	return nil
}

func Symlink(a, b string) error {
	if err := self().Symlink(a, b); err != nil {
		return &LinkError{Op: "symlink", Old: a, New: b, Err: err}
	}
	return nil
}

func Readlink(name string) (string, error) {
	s, err := self().Readlink(name)
	return s, perr("readlink", name, err)
}

func Truncate(name string, size int64) error {
	return perr("truncate", name, self().Truncate(name, nil, size))
}
func Chmod(name string, m FileMode) error    { return perr("chmod", name, self().Chmod(name, nil, m)) }
func Chown(name string, uid, gid int) error  { return perr("chown", name, self().Touch(name, nil)) }
func Lchown(name string, uid, gid int) error { return perr("lchown", name, self().Touch(name, nil)) }
func Chtimes(name string, a, m time.Time) error {
	return perr("chtimes", name, self().Touch(name, nil))
}
func Chdir(dir string) error { return perr("chdir", dir, self().Chdir(dir)) }

func Getwd() (string, error) {
	d, err := self().Getwd()
	if err != nil {
		return "", NewSyscallError("getwd", err)
	}
	return d, nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(onlyReader{f})
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func TempDir() string {
	if d := Getenv("TMPDIR"); d != "" {
		return d
	}
	return "/tmp"
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf, err := prefixSuffix(pattern)
	if err != nil {
		return nil, perr("createtemp", pattern, err)
	}
	for i := 0; ; i++ {
		name := join(dir, pre+self().TempSuffix()+suf)
		f, err := OpenFile(name, O_RDWR|O_CREATE|O_EXCL, 0600)
		if IsExist(err) && i < 1000 {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf, err := prefixSuffix(pattern)
	if err != nil {
		return "", perr("mkdirtemp", pattern, err)
	}
	for i := 0; ; i++ {
		name := join(dir, pre+self().TempSuffix()+suf)
		err := Mkdir(name, 0700)
		if err == nil {
			return name, nil
		}
		if IsExist(err) && i < 1000 {
			continue
		}
		if IsNotExist(err) {
			if _, err := Stat(dir); IsNotExist(err) {
				return "", err
			}
		}
		return "", err
	}
}

func join(dir, name string) string {
	if dir != "" && dir[len(dir)-1] == '/' {
		return dir + name
	}
	return dir + "/" + name
}

func prefixSuffix(p string) (string, string, error) {
	if strings.Contains(p, "/") {
		return "", "", errors.New("pattern contains path separator")
	}
	if i := strings.LastIndexByte(p, '*'); i >= 0 {
		return p[:i], p[i+1:], nil
	}
	return p, "", nil
}

func DirFS(dir string) fs.FS { return dirFS(dir) }

type dirFS string

func (d dirFS) Open(name string) (fs.File, error) {
	f, err := Open(path.Join(string(d), name))
	if err != nil {
		return nil, err
	}
	return f, nil
}

func Getenv(key string) string { v, _ := LookupEnv(key); return v }
func LookupEnv(key string) (string, bool) {
	v, ok := self().Env[key]
	if !ok {
		v, ok = self().W.Setting(key)
	}
	return v, ok
}
func Setenv(key, v string) error { self().Env[key] = v; return nil }
func Unsetenv(key string) error  { delete(self().Env, key); return nil }
func Clearenv()                  { self().Env = map[string]string{} }
func Environ() []string {
	var rv []string
	for kk, v := range self().Env {
		rv = append(rv, kk+"="+v)
	}
	sort.Strings(rv)
	return rv
}
func ExpandEnv(s string) string                     { return ros.Expand(s, Getenv) }
func Expand(s string, m func(string) string) string { return ros.Expand(s, m) }

func Exit(code int)                  { self().Die(code) }
func Getpid() int                    { return self().Pid }
func Getppid() int                   { return 1 + self().Pid%7 }
func Getuid() int                    { return 1000 + int(self().W.EnvKnob%5) }
func Geteuid() int                   { return Getuid() }
func Getgid() int                    { return Getuid() }
func Getegid() int                   { return Getuid() }
func Getpagesize() int               { return 4096 }
func Hostname() (string, error)      { return fmt.Sprint("sim", self().W.EnvKnob%9), nil }
func Executable() (string, error)    { return "/usr/local/bin/baron", nil }
func UserHomeDir() (string, error)   { return Getenv("HOME"), nil }
func UserCacheDir() (string, error)  { return Getenv("HOME") + "/.cache", nil }
func UserConfigDir() (string, error) { return Getenv("HOME") + "/.config", nil }

func FindProcess(pid int) (*Process, error) { return &Process{Pid: pid}, nil }
func (p *Process) Kill() error              { return nil }
func (p *Process) Signal(Signal) error      { return nil }
func (p *Process) Release() error           { return nil }

func Pipe() (*File, *File, error) {
	p := &pipe{}
	return &File{pipe: p, name: "|0"}, &File{pipe: p, name: "|1"}, nil
}
