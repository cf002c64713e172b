package cli

import (
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"github.com/teamlint/baron/zz_sim/k"
)

// The protocol compiler is a real program run as a pure function: its inputs
// are read from the simulated disk (operation by operation, so that reads can
// fail), the real protoc runs on them in a scratch directory, and what it
// produced is written to the simulated disk (operation by operation).

type protocOut struct {
	code  int
	out   string
	files map[string]string // relative to the out directory
	order []string
}

var protocMem = map[string]*protocOut{}
var ProtocReal, ProtocHits int

// ScratchDir is where the real protoc works; RepoDir is the tree under test.
var ScratchDir, RepoDir string

var gapiCache map[string]string

func gapis() map[string]string {
	if gapiCache != nil {
		return gapiCache
	}
	gapiCache = map[string]string{}
	root := filepath.Join(RepoDir, "third_party", "googleapis")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".proto") {
			b, err := os.ReadFile(p)
			if err == nil {
				rel, _ := filepath.Rel(root, p)
				gapiCache[rel] = string(b)
			}
		}
		return nil
	})
	return gapiCache
}

func readAll(p *k.Proc, name string) (string, error) {
	h, err := p.Open(name, os.O_RDONLY, 0)
	if err != nil {
		return "", err
	}
	var b []byte
	buf := make([]byte, 65536)
	for {
		n, err := p.Read(h, buf)
		if err != nil {
			return "", err
		}
		if n == 0 {
			break
		}
		b = append(b, buf[:n]...)
	}
	return string(b), nil
}

// Protoc implements the protocol compiler for the simulated processes.
func Protoc(p *k.Proc, c *k.ExecReq) k.ExecRes {
	fail := func(format string, a ...interface{}) k.ExecRes {
		return k.ExecRes{Code: 1, Err: []byte(fmt.Sprintf(format, a...) + "\n")}
	}
	var includes, files []string
	var other []string
	type outp struct{ plugin, dir, opt string }
	var outs []outp
	opts := map[string]string{}
	args := c.Args[1:]
	for i := 0; i < len(args); i++ {
		a := args[i]
		switch {
		case strings.HasPrefix(a, "-I"):
			includes = append(includes, strings.Split(a[2:], ":")...)
		case strings.HasPrefix(a, "--proto_path="):
			includes = append(includes, strings.Split(a[len("--proto_path="):], ":")...)
		case strings.HasPrefix(a, "--") && strings.Contains(a, "_out="):
			j := strings.Index(a, "_out=")
			d := a[j+5:]
			o := ""
			if x := strings.LastIndex(d, ":"); x >= 0 {
				o, d = d[:x], d[x+1:]
			}
			outs = append(outs, outp{a[2:j], d, o})
		case strings.HasPrefix(a, "--") && strings.Contains(a, "_opt="):
			j := strings.Index(a, "_opt=")
			n := a[2:j]
			if opts[n] != "" {
				opts[n] += ","
			}
			opts[n] += a[j+5:]
		case strings.HasPrefix(a, "-"):
			other = append(other, a)
		default:
			files = append(files, a)
		}
	}
	// read the definitions
	content := map[string]string{}
	for _, f := range files {
		s, err := readAll(p, f)
		if err != nil {
			return fail("%s: %v", f, err)
		}
		content[p.Abs(f)] = s
	}
	// imports of sibling files
	queue := append([]string(nil), files...)
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		for _, line := range strings.Split(content[p.Abs(f)], "\n") {
			line = strings.TrimSpace(line)
			if !strings.HasPrefix(line, "import ") {
				continue
			}
			parts := strings.Split(line, `"`)
			if len(parts) < 3 {
				continue
			}
			for _, inc := range includes {
				full := path.Join(p.Abs(inc), parts[1])
				if _, ok := content[full]; ok {
					break
				}
				if p.W.FS.Exists(full) {
					s, err := readAll(p, full)
					if err != nil {
						return fail("%s: %v", full, err)
					}
					content[full] = s
					queue = append(queue, full)
					break
				}
			}
		}
	}
	// run it (or remember)
	key := fmt.Sprintf("%q %q %q", includes, files, other)
	for i, o := range outs {
		key += fmt.Sprintf("|%d %s %s %s", i, o.plugin, o.opt, opts[o.plugin])
	}
	names := make([]string, 0, len(content))
	for n := range content {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		key += fmt.Sprintf("|%s=%x", n, sha256.Sum256([]byte(content[n])))
	}
	// the directory of the inputs may be a temporary one: independent of its name
	if len(files) > 0 {
		key = strings.ReplaceAll(key, path.Dir(p.Abs(files[0])), "@DIR@")
	}
	sum := fmt.Sprintf("%x", sha256.Sum256([]byte(key)))
	res := protocMem[sum]
	if res == nil {
		res = realProtoc(p, includes, files, other, content, func(i int) (string, string) {
			if i >= len(outs) {
				return "", ""
			}
			o := outs[i].opt
			if x := opts[outs[i].plugin]; x != "" {
				if o != "" {
					o += ","
				}
				o += x
			}
			return outs[i].plugin, o
		}, len(outs))
		protocMem[sum] = res
	} else {
		ProtocHits++
	}
	if res.code != 0 {
		return k.ExecRes{Code: res.code, Err: []byte(res.out)}
	}
	for _, rel := range res.order {
		i := strings.IndexByte(rel, '/')
		n := 0
		fmt.Sscan(rel[:i], &n)
		dst := path.Join(p.Abs(outs[n].dir), rel[i+1:])
		data := []byte(res.files[rel])
		if d := path.Dir(rel[i+1:]); d != "." {
			p.Mkdir(path.Dir(dst), 0777)
		}
		h, err := p.Open(dst, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
		if err != nil {
			return fail("%s: %v", dst, err)
		}
		for len(data) > 0 {
			n, err := p.Write(h, data)
			data = data[n:]
			if err != nil {
				return fail("%s: write: %v", dst, err)
			}
		}
		if err := p.Close(h); err != nil {
			return fail("%s: close: %v", dst, err)
		}
	}
	return k.ExecRes{}
}

func realProtoc(p *k.Proc, includes, files, other []string, content map[string]string, plug func(int) (string, string), nout int) *protocOut {
	ProtocReal++
	dir, err := os.MkdirTemp(ScratchDir, "protoc")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	root := filepath.Join(dir, "root")
	for n, c := range content {
		f := filepath.Join(root, n)
		os.MkdirAll(filepath.Dir(f), 0777)
		if err := os.WriteFile(f, []byte(c), 0666); err != nil {
			panic("harness: " + err.Error())
		}
	}
	var args []string
	args = append(args, other...)
	for _, inc := range includes {
		d := filepath.Join(root, p.Abs(inc))
		if strings.HasSuffix(inc, "third_party/googleapis") {
			d = filepath.Join(RepoDir, "third_party", "googleapis")
		}
		if _, err := os.Stat(d); err != nil {
			os.MkdirAll(d, 0777)
		}
		args = append(args, "-I"+d)
	}
	var outdirs []string
	for i := 0; i < nout; i++ {
		name, opt := plug(i)
		if _, err := exec.LookPath("protoc-gen-" + name); err != nil {
			panic("harness: " + err.Error())
		}
		d := filepath.Join(dir, fmt.Sprint("out", i))
		os.MkdirAll(d, 0777)
		outdirs = append(outdirs, d)
		a := "--" + name + "_out="
		if opt != "" {
			a += opt + ":"
		}
		args = append(args, a+d)
	}
	for _, f := range files {
		args = append(args, filepath.Join(root, p.Abs(f)))
	}
	cmd := exec.Command("protoc", args...)
	b, err := cmd.CombinedOutput()
	res := &protocOut{files: map[string]string{}}
	if err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			panic("harness: cannot run protoc: " + err.Error())
		}
		res.code = 1
		res.out = strings.ReplaceAll(string(b), root, "")
		return res
	}
	for i, d := range outdirs {
		filepath.Walk(d, func(q string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				rel, _ := filepath.Rel(d, q)
				c, _ := os.ReadFile(q)
				key := fmt.Sprintf("%d/%s", i, rel)
				res.files[key] = string(c)
				res.order = append(res.order, key)
			}
			return nil
		})
	}
	return res
}

// GoLoad answers what 'go list' says about a directory.
func GoLoad(p *k.Proc, dir string) k.LoadRes {
	fs := p.W.FS
	cwd := p.Cwd
	mod := ""
	for d := path.Clean(cwd); ; d = path.Dir(d) {
		if s, ok := fs.Get(path.Join(d, "go.mod")); ok {
			mod = d
			for _, l := range strings.Split(s, "\n") {
				if strings.HasPrefix(l, "module ") {
					name := strings.TrimSpace(l[7:])
					full := path.Clean(p.Abs(dir))
					r := k.LoadRes{PkgPath: full}
					if full == mod {
						r.PkgPath = name
					} else if strings.HasPrefix(full, mod+"/") {
						r.PkgPath = name + full[len(mod):]
					}
					files := fs.Files(full)
					var gos []string
					for f := range files {
						if path.Dir(f) == full && strings.HasSuffix(f, ".go") && !strings.HasPrefix(path.Base(f), ".") && !strings.HasPrefix(path.Base(f), "_") {
							gos = append(gos, f)
						}
					}
					sort.Strings(gos)
					for _, g := range gos {
						for _, l := range strings.Split(files[g], "\n") {
							if strings.HasPrefix(l, "package ") {
								r.Name = strings.Fields(l)[1]
								break
							}
						}
						if r.Name != "" {
							break
						}
					}
					if r.Name == "" {
						r.Errs = []string{"-: no Go files in " + full}
					}
					return r
				}
			}
		}
		if d == "/" {
			break
		}
	}
	return k.LoadRes{Err: fmt.Errorf("err: exit status 1: go: go.mod file not found in current directory or any parent directory; see 'go help modules'")}
}
