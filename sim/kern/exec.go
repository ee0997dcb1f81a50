//go:build go1.25

package kern

import (
	"bytes"
	"fmt"
	"path"
	"strings"
	"syscall"
	"time"
)

// Image builds the content of an executable: the header names the program, the trailer marks completeness.
func Image(prog, payload string) []byte {
	return []byte("#!SIM:" + prog + "\n" + payload + "\n#!END\n")
}

var execFaults = []string{"exec.EAGAIN", "exec.ENOMEM", "exec.killed"}

// StartProcess executes a program file.
func (p *Proc) StartProcess(name string, argv []string, env map[string]string, dir string, std [3]*FD) (child *Proc, errno syscall.Errno) {
	k := p.K
	p.Op("exec", name+" "+strings.Join(argv[min(1, len(argv)):], " "), execFaults, nil, func(fault string) string {
		killed := false
		switch fault {
		case "exec.killed":
			killed = true
		case "":
		default:
			errno = errnoOf(fault)
			return res(errno)
		}
		cwd := p.Cwd
		if dir != "" {
			l, e := k.FS.resolve(p.Cwd, dir, true)
			if e == 0 && l.node == nil {
				e = syscall.ENOENT
			}
			if e == 0 && !l.node.IsDir() {
				e = syscall.ENOTDIR
			}
			if e != 0 {
				errno = e
				return res(errno)
			}
			cwd = l.path
		}
		l, e := k.FS.resolve(cwd, name, true)
		switch {
		case e != 0:
		case l.node == nil:
			e = syscall.ENOENT
		case l.node.IsDir() || l.node.Mode&0111 == 0:
			e = syscall.EACCES
		case l.node.Writers > 0:
			e = syscall.ETXTBSY
		}
		if e != 0 {
			errno = e
			return res(errno)
		}
		if k.OnExec != nil {
			k.ExecArgv = argv
			k.OnExec(p, l.path, l.node)
		}
		data := l.node.Data
		if !bytes.HasPrefix(data, []byte("#!SIM:")) || bytes.IndexByte(data, '\n') < 0 {
			errno = syscall.ENOEXEC
			return res(errno)
		}
		prog := string(data[6:bytes.IndexByte(data, '\n')])
		broken := !bytes.HasSuffix(data, []byte("\n#!END\n"))
		fields := strings.Fields(prog)
		var main func(*Proc) int
		if len(fields) > 0 {
			main = k.Programs[fields[0]]
		}
		if main == nil {
			errno = syscall.ENOEXEC
			return res(errno)
		}
		short := path.Base(fields[0])
		child = k.Spawn(p.ChildLabel(short), fields[0], p, argv, env, cwd, std, func(c *Proc) int {
			if broken {
				c.Op("crash", "truncated image", nil, nil, func(string) string {
					k.terminate(c, -1, syscall.SIGSEGV)
					return "SIGSEGV"
				})
			}
			return main(c)
		})
		child.Info["image"] = prog
		child.Info["path"] = l.path
		child.Exe = l.node
		l.node.Running++
		if killed {
			child.killAt = 1 + k.ChooseUniform("killat/"+child.Label, 12)
		}
		return fmt.Sprintf("pid %d", child.Pid)
	})
	return
}

// WaitFor waits until a child has ended and reaps it.
func (p *Proc) WaitFor(child *Proc) {
	p.Op("wait", child.Label, nil, func() bool { return child.Dead }, func(string) string {
		child.Reaped = true
		return child.Desc()
	})
}

// SendSignal is kill(2).
func (p *Proc) SendSignal(target *Proc, sig syscall.Signal) (errno syscall.Errno) {
	p.Op("kill", fmt.Sprintf("%s %d", target.Label, int(sig)), nil, nil, func(string) string {
		if target.Reaped {
			errno = syscall.ESRCH
			return res(errno)
		}
		if sig != 0 && !target.Dead {
			p.K.Kill(target, sig)
		}
		return ""
	})
	return
}

// Sleep suspends the current goroutine of the process.
func (p *Proc) Sleep(d time.Duration) {
	until := time.Now().Add(d)
	p.K.bgAt(until)
	p.Op("sleep", d.String(), nil, func() bool { return !time.Now().Before(until) }, func(string) string { return "" })
}
