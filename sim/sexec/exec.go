//go:build go1.25

// Package sexec is package os/exec on the simulated kernel.
package sexec

import (
	"bytes"
	"context"
	"errors"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/kern"
	"verif.local/sim/sos"
)

type Error = exec.Error

var (
	ErrNotFound  = exec.ErrNotFound
	ErrDot       = exec.ErrDot
	ErrWaitDelay = exec.ErrWaitDelay
)

// ExitError reports an unsuccessful exit.
type ExitError struct {
	*sos.ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

// Cmd is as in os/exec.
type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	ExtraFiles   []*sos.File
	SysProcAttr  *syscall.SysProcAttr
	Process      *sos.Process
	ProcessState *sos.ProcessState
	Err          error
	Cancel       func() error
	WaitDelay    time.Duration

	ctx        context.Context
	closeAfter []*sos.File // child's ends, closed after start
	parentEnds []*sos.File // closed by Wait
	copies     []func() error
	copyErr    chan error
	ctxDone    chan struct{}
	ctxErr     chan error
}

// Command prepares a command.
func Command(name string, arg ...string) *Cmd {
	c := &Cmd{Path: name, Args: append([]string{name}, arg...)}
	if filepath.Base(name) == name {
		lp, err := LookPath(name)
		if lp != "" {
			c.Path = lp
		}
		if err != nil {
			c.Err = err
		}
	}
	return c
}

// CommandContext is Command with a context.
func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	if ctx == nil {
		panic("nil Context")
	}
	c := Command(name, arg...)
	c.ctx = ctx
	c.Cancel = func() error { return c.Process.Kill() }
	return c
}

func findExecutable(file string) error {
	d, err := sos.Stat(file)
	if err != nil {
		return err
	}
	m := d.Mode()
	if m.IsDir() {
		return syscall.EISDIR
	}
	if m&0111 != 0 {
		return nil
	}
	return fs.ErrPermission
}

// LookPath searches PATH.
func LookPath(file string) (string, error) {
	if strings.Contains(file, "/") {
		if err := findExecutable(file); err != nil {
			return "", &Error{Name: file, Err: err}
		}
		return file, nil
	}
	for _, dir := range filepath.SplitList(sos.Getenv("PATH")) {
		if dir == "" {
			dir = "."
		}
		path := filepath.Join(dir, file)
		if err := findExecutable(path); err == nil {
			if !filepath.IsAbs(path) {
				return path, &Error{Name: file, Err: ErrDot}
			}
			return path, nil
		}
	}
	return "", &Error{Name: file, Err: ErrNotFound}
}

func (c *Cmd) String() string {
	if c.Err != nil {
		return strings.Join(c.Args, " ")
	}
	b := new(strings.Builder)
	b.WriteString(c.Path)
	for _, a := range c.Args[1:] {
		b.WriteByte(' ')
		b.WriteString(a)
	}
	return b.String()
}

// Environ returns the environment the command will run with.
func (c *Cmd) Environ() []string {
	if c.Env != nil {
		return c.Env
	}
	return sos.Environ()
}

func isNil(w interface{}) bool {
	f, ok := w.(*sos.File)
	return ok && f == nil
}

func (c *Cmd) reader() (*kern.FD, error) {
	if c.Stdin == nil || isNil(c.Stdin) {
		return c.null(os.O_RDONLY)
	}
	if f, ok := c.Stdin.(*sos.File); ok {
		return f.Desc(), nil
	}
	r, w, err := sos.Pipe()
	if err != nil {
		return nil, err
	}
	c.closeAfter = append(c.closeAfter, r)
	c.parentEnds = append(c.parentEnds, w)
	c.copies = append(c.copies, func() error {
		_, err := io.Copy(w, c.Stdin)
		if errors.Is(err, syscall.EPIPE) {
			err = nil
		}
		if err1 := w.Close(); err == nil {
			err = err1
		}
		return err
	})
	return r.Desc(), nil
}

func (c *Cmd) null(flag int) (*kern.FD, error) {
	f, err := sos.OpenFile(os.DevNull, flag, 0)
	if err != nil {
		return nil, err
	}
	c.closeAfter = append(c.closeAfter, f)
	return f.Desc(), nil
}

func (c *Cmd) writer(w io.Writer) (*kern.FD, error) {
	if w == nil || isNil(w) {
		return c.null(os.O_WRONLY)
	}
	if f, ok := w.(*sos.File); ok {
		return f.Desc(), nil
	}
	r, pw, err := sos.Pipe()
	if err != nil {
		return nil, err
	}
	c.closeAfter = append(c.closeAfter, pw)
	c.parentEnds = append(c.parentEnds, r)
	c.copies = append(c.copies, func() error {
		_, err := io.Copy(w, r)
		r.Close()
		return err
	})
	return pw.Desc(), nil
}

func sameWriter(a, b io.Writer) (same bool) {
	defer func() { recover() }()
	return a == b
}

func closeAll(fs []*sos.File) {
	for _, f := range fs {
		f.Close()
	}
}

// Start starts the command.
func (c *Cmd) Start() error {
	if c.Path == "" && c.Err == nil {
		c.Err = errors.New("exec: no command")
	}
	if c.Err != nil {
		closeAll(c.closeAfter)
		closeAll(c.parentEnds)
		return c.Err
	}
	if c.Process != nil {
		return errors.New("exec: already started")
	}
	if c.ctx != nil {
		if err := c.ctx.Err(); err != nil {
			closeAll(c.closeAfter)
			closeAll(c.parentEnds)
			return err
		}
	}
	fail := func(err error) error {
		closeAll(c.closeAfter)
		closeAll(c.parentEnds)
		return err
	}
	var std [3]*kern.FD
	var err error
	if std[0], err = c.reader(); err != nil {
		return fail(err)
	}
	if std[1], err = c.writer(c.Stdout); err != nil {
		return fail(err)
	}
	if c.Stderr != nil && sameWriter(c.Stderr, c.Stdout) {
		std[2] = std[1]
	} else if std[2], err = c.writer(c.Stderr); err != nil {
		return fail(err)
	}
	env := kern.Current().Env
	if c.Env != nil {
		env = sos.EnvMap(c.Env)
	}
	p := kern.Current()
	path := c.Path
	child, e := p.StartProcess(path, c.Args, env, c.Dir, std)
	if e != 0 {
		return fail(&os.PathError{Op: "fork/exec", Path: path, Err: e})
	}
	if a := c.SysProcAttr; a != nil && (a.Setpgid || a.Setsid) {
		child.Pgid = child.Pid
		if a.Pgid > 0 {
			child.Pgid = a.Pgid
		}
	}
	c.Process, _ = sos.FindProcess(child.Pid)
	closeAll(c.closeAfter)
	c.closeAfter = nil
	if len(c.copies) > 0 {
		c.copyErr = make(chan error, len(c.copies))
		for _, f := range c.copies {
			f := f
			go func() { c.copyErr <- f() }()
		}
	}
	if c.ctx != nil && c.ctx.Done() != nil {
		c.ctxDone = make(chan struct{})
		c.ctxErr = make(chan error, 1)
		go func() {
			select {
			case <-c.ctxDone:
				c.ctxErr <- nil
				return
			case <-c.ctx.Done():
			}
			var err error
			if c.Cancel != nil {
				if ierr := c.Cancel(); ierr == nil {
					err = c.ctx.Err()
				} else if !errors.Is(ierr, os.ErrProcessDone) {
					err = ierr
				}
			}
			c.ctxErr <- err
		}()
	}
	return nil
}

// Wait waits for the command.
func (c *Cmd) Wait() error {
	if c.Process == nil {
		return errors.New("exec: not started")
	}
	if c.ProcessState != nil {
		return errors.New("exec: Wait was already called")
	}
	state, err := c.Process.Wait()
	if err == nil && !state.Success() {
		err = &ExitError{ProcessState: state}
	}
	c.ProcessState = state
	if c.ctxDone != nil {
		close(c.ctxDone)
		if ierr := <-c.ctxErr; ierr != nil {
			var ee *ExitError
			if err == nil || errors.As(err, &ee) {
				err = ierr
			}
		}
	}
	var timer <-chan time.Time
	if c.WaitDelay > 0 {
		t := time.NewTimer(c.WaitDelay)
		defer t.Stop()
		timer = t.C
	}
	for i := range c.copies {
		_ = i
		select {
		case cerr := <-c.copyErr:
			if err == nil && cerr != nil {
				err = cerr
			}
			continue
		case <-timer:
			if err == nil {
				err = ErrWaitDelay
			}
		}
		break
	}
	closeOpen(c.parentEnds)
	return err
}

func closeOpen(fs []*sos.File) {
	for _, f := range fs {
		if d := f.Desc(); d != nil && !d.Closed {
			f.Close()
		}
	}
}

// Run starts the command and waits for it.
func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

// Output runs the command and returns its standard output.
func (c *Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var stdout bytes.Buffer
	c.Stdout = &stdout
	capture := c.Stderr == nil
	var stderr bytes.Buffer
	if capture {
		c.Stderr = &stderr
	}
	err := c.Run()
	if ee, ok := err.(*ExitError); ok && capture {
		ee.Stderr = stderr.Bytes()
	}
	return stdout.Bytes(), err
}

// CombinedOutput runs the command and returns both outputs.
func (c *Cmd) CombinedOutput() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	if c.Stderr != nil {
		return nil, errors.New("exec: Stderr already set")
	}
	var b bytes.Buffer
	c.Stdout = &b
	c.Stderr = &b
	err := c.Run()
	return b.Bytes(), err
}

// StdinPipe is as in os/exec.
func (c *Cmd) StdinPipe() (io.WriteCloser, error) {
	if c.Stdin != nil {
		return nil, errors.New("exec: Stdin already set")
	}
	r, w, err := sos.Pipe()
	if err != nil {
		return nil, err
	}
	c.Stdin = r
	c.closeAfter = append(c.closeAfter, r)
	c.parentEnds = append(c.parentEnds, w)
	return w, nil
}

// StdoutPipe is as in os/exec.
func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	r, w, err := sos.Pipe()
	if err != nil {
		return nil, err
	}
	c.Stdout = w
	c.closeAfter = append(c.closeAfter, w)
	c.parentEnds = append(c.parentEnds, r)
	return r, nil
}

// StderrPipe is as in os/exec.
func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	if c.Stderr != nil {
		return nil, errors.New("exec: Stderr already set")
	}
	r, w, err := sos.Pipe()
	if err != nil {
		return nil, err
	}
	c.Stderr = w
	c.closeAfter = append(c.closeAfter, w)
	c.parentEnds = append(c.parentEnds, r)
	return r, nil
}

var _ = strconv.Itoa
