//go:build go1.25

// Package ssyscall is package syscall with the calls that reach other processes or the file system simulated.
package ssyscall

import (
	"syscall"

	"verif.local/sim/kern"
)

func ret(e syscall.Errno) error {
	if e == 0 {
		return nil
	}
	return e
}

func Flock(fd int, how int) error { return ret(kern.Current().Flock(fd, how)) }

func Kill(pid int, sig syscall.Signal) error {
	p := kern.Current()
	if pid > 0 {
		t := p.K.ProcByPid(pid)
		if t == nil {
			return syscall.ESRCH
		}
		return ret(p.SendSignal(t, sig))
	}
	pg := -pid
	if pid == 0 {
		pg = p.Pgid
	}
	n := 0
	for _, t := range p.K.Procs {
		if t.Pgid == pg && !t.Dead {
			p.SendSignal(t, sig)
			n++
		}
	}
	if n == 0 {
		return syscall.ESRCH
	}
	return nil
}

func Getpid() int        { return kern.Current().Pid }
func Getppid() int       { return kern.Current().Ppid }
func Getuid() int        { return 1000 }
func Geteuid() int       { return 1000 }
func Exit(code int)      { kern.Current().Exit(code) }
func Umask(mask int) int { return 0022 }
func Getenv(key string) (string, bool) {
	v, ok := kern.Current().Env[key]
	return v, ok
}

func Unlink(name string) error             { return ret(kern.Current().Unlink(name, false)) }
func Rmdir(name string) error              { return ret(kern.Current().Unlink(name, true)) }
func Rename(from, to string) error         { return ret(kern.Current().Rename(from, to)) }
func Mkdir(name string, mode uint32) error { return ret(kern.Current().Mkdir(name, 0777)) }
func Sync()                                {}
func Fsync(fd int) error {
	p := kern.Current()
	d := p.FDs[fd]
	if d == nil {
		return syscall.EBADF
	}
	return ret(p.Sync(d))
}

func Setpgid(pid, pgid int) error {
	p := kern.Current()
	t := p
	if pid != 0 {
		t = p.K.ProcByPid(pid)
	}
	if t == nil {
		return syscall.ESRCH
	}
	if pgid == 0 {
		pgid = t.Pid
	}
	t.Pgid = pgid
	return nil
}

func Getpgid(pid int) (int, error) {
	p := kern.Current()
	t := p
	if pid != 0 {
		t = p.K.ProcByPid(pid)
	}
	if t == nil {
		return 0, syscall.ESRCH
	}
	return t.Pgid, nil
}

func Getpgrp() int { return kern.Current().Pgid }
