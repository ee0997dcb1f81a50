//go:build go1.25

// Package progs holds the stub programs of the simulated machine: protoc, its plugins, git and diff.
package progs

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/kern"
)

// Install registers the stub programs with a kernel.
func Install(k *kern.Kernel) {
	k.Programs["protoc"] = protoc
	k.Programs["plugin"] = plugin
	k.Programs["git"] = git
	k.Programs["diff"] = diff
}

// readFile reads a whole file with system calls.
func readFile(p *kern.Proc, name string) ([]byte, syscall.Errno) {
	fd, num, e := p.Open(name, syscall.O_RDONLY, 0)
	if e != 0 {
		return nil, e
	}
	var out []byte
	buf := make([]byte, 65536)
	for {
		n, e := p.Read(fd, buf, -1)
		if e != 0 {
			p.Close(num)
			return nil, e
		}
		if n == 0 {
			break
		}
		out = append(out, buf[:n]...)
	}
	p.Close(num)
	return out, 0
}

func writeFile(p *kern.Proc, name string, data []byte, perm fs.FileMode) syscall.Errno {
	fd, num, e := p.Open(name, syscall.O_WRONLY|syscall.O_CREAT|syscall.O_TRUNC, perm)
	if e != 0 {
		return e
	}
	for off := 0; off < len(data); {
		end := off + 4096
		if end > len(data) {
			end = len(data)
		}
		n, e := p.Write(fd, data[off:end], -1)
		if e != 0 {
			p.Close(num)
			return e
		}
		off += n
	}
	return p.Close(num)
}

// say writes to a standard stream.
func say(p *kern.Proc, std int, text string) {
	fd := p.Std[std]
	if fd == nil {
		return
	}
	b := []byte(text)
	for len(b) > 0 {
		n, e := p.Write(fd, b, -1)
		if e != 0 || n == 0 {
			return
		}
		if std == 2 {
			// what protoc and its plugins reported is recorded with the protoc process
			q := p
			if p.Prog == "plugin" && p.Parent != nil {
				q = p.Parent
			}
			q.Info["stderr"] += string(b[:n])
		}
		b = b[n:]
	}
}

func errf(p *kern.Proc, format string, args ...interface{}) {
	say(p, 2, fmt.Sprintf(format, args...))
}

func readAll(p *kern.Proc, fd *kern.FD) []byte {
	var out []byte
	buf := make([]byte, 65536)
	for {
		n, e := p.Read(fd, buf, -1)
		if n == 0 || e != 0 {
			return out
		}
		out = append(out, buf[:n]...)
	}
}

func sleep(p *kern.Proc, d time.Duration) { p.Sleep(d) }

// Pack is the stub's object store of one branch: path to content.
func Pack(tree map[string]string) []byte {
	b, _ := json.Marshal(tree)
	return b
}

func git(p *kern.Proc) int {
	args := p.Argv[1:]
	if len(args) == 0 || args[0] != "clone" {
		errf(p, "git: unsupported command %v\n", args)
		return 129
	}
	branch := ""
	var rest []string
	for i := 1; i < len(args); i++ {
		switch {
		case args[i] == "--depth":
			i++
		case args[i] == "--branch" || args[i] == "-b":
			i++
			branch = args[i]
		case strings.HasPrefix(args[i], "--branch="):
			branch = strings.TrimPrefix(args[i], "--branch=")
		case strings.HasPrefix(args[i], "-"):
		default:
			rest = append(rest, args[i])
		}
	}
	if len(rest) != 2 {
		errf(p, "usage: git clone\n")
		return 129
	}
	src, dst := strings.TrimPrefix(rest[0], "file://"), rest[1]
	errf(p, "Cloning into '%s'...\n", dst)
	if branch == "" {
		head, e := readFile(p, src+"/.git/HEAD")
		if e != 0 {
			errf(p, "fatal: '%s' does not appear to be a git repository\n", src)
			return 128
		}
		branch = strings.TrimPrefix(strings.TrimSpace(string(head)), "ref: refs/heads/")
	}
	data, e := readFile(p, src+"/.git/objects/"+branch+".pack")
	if e == syscall.ENOENT {
		errf(p, "warning: Could not find remote branch %s to clone.\nfatal: Remote branch %s not found in upstream origin\n", branch, branch)
		return 128
	}
	tree := map[string]string{}
	if e != 0 || json.Unmarshal(data, &tree) != nil {
		errf(p, "error: inflate: data stream error\nfatal: remote did not send all necessary objects\n")
		return 128
	}
	paths := make([]string, 0, len(tree))
	for n := range tree {
		paths = append(paths, n)
	}
	sort.Strings(paths)
	made := map[string]bool{}
	var mk func(d string) syscall.Errno
	mk = func(d string) syscall.Errno {
		if made[d] || d == dst {
			return 0
		}
		made[d] = true
		if e := mk(path.Dir(d)); e != 0 {
			return e
		}
		if e := p.Mkdir(d, 0755); e != 0 && e != syscall.EEXIST {
			return e
		}
		return 0
	}
	if e := p.Mkdir(dst, 0755); e != 0 && e != syscall.EEXIST {
		errf(p, "fatal: could not create work tree dir '%s': %s\n", dst, e.Error())
		return 128
	}
	cleanup := func() {
		// like git: remove what was checked out, keep the directory that existed before
		for i := len(paths) - 1; i >= 0; i-- {
			p.Unlink(path.Join(dst, paths[i]), false)
		}
		ds := make([]string, 0, len(made))
		for d := range made {
			ds = append(ds, d)
		}
		sort.Sort(sort.Reverse(sort.StringSlice(ds)))
		for _, d := range ds {
			p.Unlink(d, true)
		}
	}
	mk(path.Join(dst, ".git"))
	paths = append(paths, ".git/HEAD")
	tree[".git/HEAD"] = "ref: refs/heads/" + branch + "\n"
	for _, n := range paths {
		full := path.Join(dst, n)
		e := mk(path.Dir(full))
		if e == 0 {
			e = writeFile(p, full, []byte(tree[n]), 0644)
		}
		if e != 0 {
			errf(p, "error: unable to write file %s: %s\nfatal: unable to checkout working tree\n", n, e.Error())
			cleanup()
			return 128
		}
	}
	return 0
}

func lines(b []byte) []string {
	s := strings.SplitAfter(string(b), "\n")
	if s[len(s)-1] == "" {
		s = s[:len(s)-1]
	}
	return s
}

func diff(p *kern.Proc) int {
	args := p.Argv[1:]
	if len(args) != 3 || args[0] != "-u" {
		errf(p, "diff: unsupported arguments %v\n", args)
		return 2
	}
	a, e := readFile(p, args[1])
	if e != 0 {
		errf(p, "diff: %s: %s\n", args[1], e.Error())
		return 2
	}
	b, e := readFile(p, args[2])
	if e != 0 {
		errf(p, "diff: %s: %s\n", args[2], e.Error())
		return 2
	}
	if bytes.Equal(a, b) {
		return 0
	}
	const ts = "2020-01-01 00:00:00.000000000 +0000"
	var out strings.Builder
	x, y := lines(a), lines(b)
	fmt.Fprintf(&out, "--- %s\t%s\n+++ %s\t%s\n@@ -1,%d +1,%d @@\n", args[1], ts, args[2], ts, len(x), len(y))
	emit := func(pre string, ls []string) {
		for _, l := range ls {
			out.WriteString(pre + l)
			if !strings.HasSuffix(l, "\n") {
				out.WriteString("\n\\ No newline at end of file\n")
			}
		}
	}
	emit("-", x)
	emit("+", y)
	text := out.String()
	// two writes, so that a kill can fall between them
	say(p, 1, text[:len(text)/2])
	say(p, 1, text[len(text)/2:])
	return 1
}
