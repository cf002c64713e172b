package cli

import (
	"path"
	"sort"
	"strings"
	"time"

	"github.com/teamlint/baron/zz_sim/drive"
	"github.com/teamlint/baron/zz_sim/k"
	stime "github.com/teamlint/baron/zz_sim/time"
)

// Main is baron's main (set by the harness program).
var Main func()

const (
	App = "/w/app"
	Tmp = "/tmp"
)

// Layout says where things are and how baron is called.
type Layout struct {
	ProtoDir string // absolute
	Out      string // the -o flag ("" for none)
	AbsArgs  bool
	Client   bool
	Trans    string
}

// NewDisk is a disk with a Go module and installed tools.
func NewDisk() *k.FS {
	fs := k.NewFS()
	fs.Put(App+"/go.mod", "module example.com/app\n\ngo 1.13\n")
	fs.Put(App+"/README.md", "my application\n")
	fs.Put(App+"/internal/db/db.go", "package db\n\n// Conn is mine.\ntype Conn struct{}\n")
	fs.Put("/w/other/notes.txt", "not a part of the application\n")
	fs.Put("/home/u/notes.txt", "personal\n")
	fs.MkdirAllRaw("/home/u/go/src/github.com/teamlint/baron")
	fs.MkdirAllRaw(Tmp)
	fs.Put(Tmp+"/parsesvcname-other", "somebody else's file\n")
	for _, b := range []string{"protoc", "protoc-gen-go", "protoc-gen-go-grpc"} {
		fs.Put("/usr/bin/"+b, "ELF "+b)
		fs.Chmod("/usr/bin/"+b, 0755)
	}
	return fs
}

// Env is the environment of a process.
func Env() map[string]string {
	return map[string]string{"PATH": "/usr/local/bin:/usr/bin", "GOPATH": "/home/u/go", "HOME": "/home/u", "PWD": App}
}

// SvcDir is the service directory of a definition under a layout.
func (l *Layout) SvcDir(d *Def) string {
	n := strings.ToLower(d.Svc) + "-service"
	switch {
	case l.Out == "":
		return path.Join(App, n)
	case strings.HasSuffix(l.Out, "/"):
		return path.Join(App, l.Out, n)
	}
	return path.Join(App, l.Out)
}

// GoPkg is the import path of the definitions' directory.
func (l *Layout) GoPkg() string {
	return "example.com/app" + strings.TrimPrefix(l.ProtoDir, App)
}

// Args is the command line.
func (l *Layout) Args(d *Def) []string {
	a := []string{"baron"}
	if l.Client {
		a = append(a, "-c")
	}
	if l.Trans != "" && l.Trans != "all" {
		a = append(a, "-t", l.Trans)
	}
	if l.Out != "" {
		a = append(a, "-o", l.Out)
	}
	for _, n := range d.ProtoNames() {
		p := path.Join(l.ProtoDir, n)
		if !l.AbsArgs {
			p = strings.TrimPrefix(p, App+"/")
		}
		a = append(a, p)
	}
	return a
}

// Outs are the paths of baron's outputs.
type Outs struct {
	Baron  string   // the transport file
	PB     []string // written by the protocol compiler
	S      string
	User   []string // editable by the user (after the first run)
	Server string
	Client string
	Legacy []string
	All    []string // present after a successful run
}

// Outputs lists what a run produces.
func (l *Layout) Outputs(d *Def) *Outs {
	o := &Outs{S: l.SvcDir(d)}
	low := strings.ToLower(d.Svc)
	for i, n := range d.ProtoNames() {
		b := strings.TrimSuffix(n, ".proto")
		o.PB = append(o.PB, path.Join(l.ProtoDir, b+".pb.go"))
		if i == 0 {
			o.PB = append(o.PB, path.Join(l.ProtoDir, b+"_grpc.pb.go"))
			o.Baron = path.Join(l.ProtoDir, b+".pb.baron.go")
		}
	}
	o.Server = path.Join(o.S, "server/server.go")
	o.Client = path.Join(o.S, "cmd", low+"-client", "main.go")
	for _, f := range []string{"service/service.go", "service/wrapper.go", "server/endpoints.go", "server/interrupt.go", "server/wrapper.go", "cmd/" + low + "/main.go"} {
		o.User = append(o.User, path.Join(o.S, f))
	}
	o.Legacy = []string{path.Join(o.S, "svc/server/cli"), path.Join(o.S, "svc/client/cli"), path.Join(o.S, "cmd", low+"-server")}
	o.All = append(o.All, o.PB...)
	o.All = append(o.All, o.Baron, o.Server)
	o.All = append(o.All, o.User...)
	if l.Client {
		o.All = append(o.All, o.Client)
	}
	return o
}

// Editable lists the files whose user edits must survive.
func (o *Outs) Editable() []string { return append(append([]string(nil), o.User...), o.Client) }

// Run configures one simulated baron process.
type Run struct {
	Key   string
	Args  []string
	Env   map[string]string
	Cwd   string
	Seed  uint64
	Short bool
	Knobs map[string]uint64
	Plan  []k.Fault
	Keep  bool
	Prep  func(fs *k.FS)
	OnOp  func(w *k.World, o *k.Op)
	After func(w *k.World, o *k.Op)
}

// Result is a finished run.
type Result struct {
	P *k.Proc
	W *k.World
}

// NewW makes a world with the tools installed.
func NewW(fs *k.FS, seed uint64) *k.World {
	w := k.NewWorld(fs, seed)
	time.Local, stime.Local = time.UTC, time.UTC
	w.Exec = Protoc
	w.Load = GoLoad
	return w
}

// zone is the time zone a process takes from its environment.
func zone(tz string) *time.Location {
	switch tz {
	case "Asia/Shanghai":
		return time.FixedZone("CST", 8*3600)
	case "Etc/GMT+5":
		return time.FixedZone("-05", -5*3600)
	}
	return time.UTC
}

// Do runs one baron process to its end on fs (which it changes).
func Do(fs *k.FS, r Run) *Result {
	if r.Prep != nil {
		r.Prep(fs)
	}
	w := NewW(fs, r.Seed)
	w.ShortReads = r.Short
	w.Keep = r.Keep || drive.KeepTrace
	w.Plan = r.Plan
	w.OnOp = r.OnOp
	w.After = r.After
	names := make([]string, 0)
	for n := range r.Knobs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		w.Knob(n, r.Knobs[n])
	}
	key := r.Key
	if key == "" {
		key = "r1"
	}
	env := r.Env
	if env == nil {
		env = Env()
	}
	cwd := r.Cwd
	if cwd == "" {
		cwd = App
	}
	time.Local = zone(env["TZ"])
	stime.Local = time.Local
	p := w.Spawn(key, r.Args, env, cwd, true, func(p *k.Proc) { Main() })
	w.Run()
	drive.Count(w)
	if w.Harness != "" {
		panic("harness: " + w.Harness)
	}
	return &Result{p, w}
}
