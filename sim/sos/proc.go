//go:build go1.25

package sos

import (
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/kern"
)

// Args is only used by the real main packages.
var Args = []string{"prototool"}

func Getenv(key string) string { return kern.Current().Env[key] }

func LookupEnv(key string) (string, bool) {
	v, ok := kern.Current().Env[key]
	return v, ok
}

func Setenv(key, value string) error { kern.Current().Env[key] = value; return nil }
func Unsetenv(key string) error      { delete(kern.Current().Env, key); return nil }
func Clearenv()                      { kern.Current().Env = map[string]string{} }

func Environ() []string {
	var out []string
	for k, v := range kern.Current().Env {
		out = append(out, k+"="+v)
	}
	sort.Strings(out)
	return out
}

func ExpandEnv(s string) string { return os.Expand(s, Getenv) }

func Exit(code int) { kern.Current().Exit(code) }

func Getpid() int                 { return kern.Current().Pid }
func Getppid() int                { return kern.Current().Ppid }
func Getuid() int                 { return 1000 }
func Geteuid() int                { return 1000 }
func Getgid() int                 { return 1000 }
func Getegid() int                { return 1000 }
func Getgroups() ([]int, error)   { return []int{1000}, nil }
func Hostname() (string, error)   { return "sim", nil }
func Executable() (string, error) { return "/usr/bin/prototool", nil }

func UserHomeDir() (string, error) {
	if h := Getenv("HOME"); h != "" {
		return h, nil
	}
	return "", errors.New("$HOME is not defined")
}

func UserCacheDir() (string, error) {
	if h := Getenv("XDG_CACHE_HOME"); h != "" {
		return h, nil
	}
	h, err := UserHomeDir()
	if err != nil {
		return "", errors.New("neither $XDG_CACHE_HOME nor $HOME are defined")
	}
	return h + "/.cache", nil
}

func UserConfigDir() (string, error) {
	if h := Getenv("XDG_CONFIG_HOME"); h != "" {
		return h, nil
	}
	h, err := UserHomeDir()
	if err != nil {
		return "", errors.New("neither $XDG_CONFIG_HOME nor $HOME are defined")
	}
	return h + "/.config", nil
}

// Process is a child process.
type Process struct {
	Pid  int
	p    *kern.Proc
	done bool
}

// ProcAttr is as in package os.
type ProcAttr struct {
	Dir   string
	Env   []string
	Files []*File
	Sys   *syscall.SysProcAttr
}

// EnvMap parses an environment list.
func EnvMap(list []string) map[string]string {
	m := map[string]string{}
	for _, e := range list {
		if i := strings.IndexByte(e, '='); i > 0 {
			m[e[:i]] = e[i+1:]
		}
	}
	return m
}

func StartProcess(name string, argv []string, attr *ProcAttr) (*Process, error) {
	if attr == nil {
		attr = &ProcAttr{}
	}
	p := kern.Current()
	env := p.Env
	if attr.Env != nil {
		env = EnvMap(attr.Env)
	}
	var std [3]*kern.FD
	for i := 0; i < 3 && i < len(attr.Files); i++ {
		std[i] = attr.Files[i].Desc()
	}
	c, e := p.StartProcess(name, argv, env, attr.Dir, std)
	if e != 0 {
		return nil, perr("fork/exec", name, e)
	}
	if attr.Sys != nil && (attr.Sys.Setpgid || attr.Sys.Setsid) {
		c.Pgid = c.Pid
		if attr.Sys.Pgid > 0 {
			c.Pgid = attr.Sys.Pgid
		}
	}
	return &Process{Pid: c.Pid, p: c}, nil
}

func FindProcess(pid int) (*Process, error) {
	return &Process{Pid: pid, p: kern.Current().K.ProcByPid(pid)}, nil
}

func (p *Process) Kill() error { return p.Signal(os.Kill) }

func (p *Process) Signal(sig os.Signal) error {
	if p.done {
		return os.ErrProcessDone
	}
	s, ok := sig.(syscall.Signal)
	if !ok {
		return errors.New("os: unsupported signal type")
	}
	if p.p == nil {
		return os.ErrProcessDone
	}
	if e := kern.Current().SendSignal(p.p, s); e != 0 {
		if e == syscall.ESRCH {
			return os.ErrProcessDone
		}
		return e
	}
	return nil
}

func (p *Process) Release() error { return nil }

func (p *Process) Wait() (*ProcessState, error) {
	if p == nil || p.p == nil {
		return nil, syscall.EINVAL
	}
	if p.done {
		return nil, os.NewSyscallError("wait", syscall.ECHILD)
	}
	kern.Current().WaitFor(p.p)
	p.done = true
	return &ProcessState{p: p.p}, nil
}

// ProcessState describes an ended process.
type ProcessState struct{ p *kern.Proc }

func (s *ProcessState) Exited() bool              { return s.p.Sig == 0 }
func (s *ProcessState) Success() bool             { return s.p.Sig == 0 && s.p.Code == 0 }
func (s *ProcessState) Pid() int                  { return s.p.Pid }
func (s *ProcessState) SysUsage() interface{}     { return &syscall.Rusage{} }
func (s *ProcessState) SystemTime() time.Duration { return 0 }
func (s *ProcessState) UserTime() time.Duration   { return 0 }

func (s *ProcessState) ExitCode() int {
	if s == nil || s.p.Sig != 0 {
		return -1
	}
	return s.p.Code
}

func (s *ProcessState) Sys() interface{} {
	if s.p.Sig != 0 {
		return syscall.WaitStatus(s.p.Sig)
	}
	return syscall.WaitStatus(s.p.Code << 8)
}

func (s *ProcessState) String() string {
	if s == nil {
		return "<nil>"
	}
	if s.p.Sig != 0 {
		return "signal: " + s.p.Sig.String()
	}
	return fmt.Sprintf("exit status %d", s.p.Code)
}

func Getpagesize() int { return 4096 }
