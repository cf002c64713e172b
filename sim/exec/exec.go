package exec

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	rexec "os/exec"
	"path"
	"strings"

	"github.com/teamlint/baron/zz_sim/k"
	"github.com/teamlint/baron/zz_sim/os"
)

var (
	ErrNotFound  = rexec.ErrNotFound
	ErrDot       = errors.New("cannot run executable found relative to current directory")
	ErrWaitDelay = errors.New("exec: WaitDelay expired before I/O complete")
)

type Error = rexec.Error

type ProcessState struct {
	code   int
	killed bool
}

func (p *ProcessState) ExitCode() int { return p.code }
func (p *ProcessState) Success() bool { return p.code == 0 && !p.killed }
func (p *ProcessState) Exited() bool  { return !p.killed }
func (p *ProcessState) Pid() int      { return 1 }
func (p *ProcessState) String() string {
	if p.killed {
		return "signal: killed"
	}
	return fmt.Sprintf("exit status %d", p.code)
}

type ExitError struct {
	*ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	ExtraFiles   []*os.File
	Process      *os.Process
	ProcessState *ProcessState
	Err          error
	started      bool
	waited       bool
	ctx          context.Context
	outPipe      *bytes.Buffer
	errPipe      *bytes.Buffer
	inPipe       *bytes.Buffer
	res          *k.ExecRes
}

func LookPath(file string) (string, error) {
	if strings.Contains(file, "/") {
		if err := isExec(file); err != nil {
			return "", &Error{Name: file, Err: err}
		}
		return file, nil
	}
	for _, dir := range strings.Split(os.Getenv("PATH"), ":") {
		if dir == "" {
			dir = "."
		}
		p := path.Join(dir, file)
		if isExec(p) == nil {
			return p, nil
		}
	}
	return "", &Error{Name: file, Err: ErrNotFound}
}

func isExec(p string) error {
	fi, err := os.Stat(p)
	if err != nil {
		return err
	}
	if fi.IsDir() || fi.Mode()&0111 == 0 {
		return os.ErrPermission
	}
	return nil
}

func Command(name string, arg ...string) *Cmd {
	c := &Cmd{Path: name, Args: append([]string{name}, arg...)}
	if path.Base(name) == name {
		lp, err := LookPath(name)
		if lp != "" {
			c.Path = lp
		}
		if err != nil {
			c.Err = err
		}
	}
	return c
}

func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	c := Command(name, arg...)
	c.ctx = ctx
	return c
}

func (c *Cmd) String() string { return strings.Join(append([]string{c.Path}, c.Args[1:]...), " ") }
func (c *Cmd) Environ() []string {
	if c.Env != nil {
		return c.Env
	}
	return os.Environ()
}

func (c *Cmd) Start() error {
	if c.started {
		return errors.New("exec: already started")
	}
	if c.Err != nil {
		return c.Err
	}
	if c.ctx != nil && c.ctx.Err() != nil {
		return c.ctx.Err()
	}
	c.started = true
	req := &k.ExecReq{Path: c.Path, Args: c.Args, Dir: c.Dir, Env: c.Env}
	if c.Stdin != nil {
		b, err := io.ReadAll(c.Stdin)
		if err != nil {
			return err
		}
		req.Stdin = b
	}
	p := k.Self()
	if c.inPipe != nil {
		// run when the input is complete (Wait)
		return nil
	}
	r := p.RunChild(req)
	if r.StartErr != nil {
		return &os.PathError{Op: "fork/exec", Path: c.Path, Err: r.StartErr}
	}
	c.res = &r
	c.Process = &os.Process{Pid: 9999}
	c.deliver()
	return nil
}

func (c *Cmd) deliver() {
	if c.outPipe != nil {
		c.outPipe.Write(c.res.Out)
	} else if c.Stdout != nil {
		c.Stdout.Write(c.res.Out)
	}
	if c.errPipe != nil {
		c.errPipe.Write(c.res.Err)
	} else if c.Stderr != nil {
		c.Stderr.Write(c.res.Err)
	}
}

func (c *Cmd) Wait() error {
	if !c.started {
		return errors.New("exec: not started")
	}
	if c.waited {
		return errors.New("exec: Wait was already called")
	}
	c.waited = true
	if c.res == nil {
		req := &k.ExecReq{Path: c.Path, Args: c.Args, Dir: c.Dir, Env: c.Env}
		if c.inPipe != nil {
			req.Stdin = c.inPipe.Bytes()
		}
		r := k.Self().RunChild(req)
		if r.StartErr != nil {
			return &os.PathError{Op: "fork/exec", Path: c.Path, Err: r.StartErr}
		}
		c.res = &r
		c.deliver()
	}
	c.ProcessState = &ProcessState{code: c.res.Code, killed: c.res.Killed}
	if !c.ProcessState.Success() {
		return &ExitError{ProcessState: c.ProcessState}
	}
	return nil
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var out, eb bytes.Buffer
	c.Stdout = &out
	capture := c.Stderr == nil
	if capture {
		c.Stderr = &eb
	}
	err := c.Run()
	if ee, ok := err.(*ExitError); ok && capture {
		ee.Stderr = eb.Bytes()
	}
	return out.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	if c.Stdout != nil || c.Stderr != nil {
		return nil, errors.New("exec: Stdout or Stderr already set")
	}
	var b bytes.Buffer
	c.Stdout = &b
	c.Stderr = &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	c.outPipe = &bytes.Buffer{}
	return io.NopCloser(c.outPipe), nil
}

func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	c.errPipe = &bytes.Buffer{}
	return io.NopCloser(c.errPipe), nil
}

type wc struct{ *bytes.Buffer }

func (wc) Close() error { return nil }

func (c *Cmd) StdinPipe() (io.WriteCloser, error) {
	c.inPipe = &bytes.Buffer{}
	return wc{c.inPipe}, nil
}
