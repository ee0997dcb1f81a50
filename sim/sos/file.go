//go:build go1.25

// Package sos is package os on the simulated kernel.
package sos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"sort"
	"syscall"
	"time"

	"verif.local/sim/kern"
)

// File is an open file of the current process.
type File struct {
	std  int // 1 + standard stream number, or 0
	num  int
	fd   *kern.FD
	name string
	dirs []*kern.Stat
	read bool
}

// Standard streams of the current process.
var (
	Stdin  = &File{std: 1, name: "/dev/stdin"}
	Stdout = &File{std: 2, name: "/dev/stdout"}
	Stderr = &File{std: 3, name: "/dev/stderr"}
)

func perr(op, path string, e syscall.Errno) error {
	if e == 0 {
		return nil
	}
	return &os.PathError{Op: op, Path: path, Err: e}
}

func retry(f func() syscall.Errno) syscall.Errno {
	for {
		if e := f(); e != syscall.EINTR {
			return e
		}
	}
}

// Desc returns the open file description (for process start).
func (f *File) Desc() *kern.FD {
	if f == nil {
		return nil
	}
	if f.std > 0 {
		return kern.Current().Std[f.std-1]
	}
	return f.fd
}

// OpenDesc wraps a description opened by the kernel.
func OpenDesc(p *kern.Proc, fd *kern.FD, name string) *File {
	return &File{fd: fd, num: p.Adopt(fd), name: name}
}

func (f *File) check(op string) (*kern.Proc, *kern.FD, error) {
	if f == nil {
		return nil, nil, os.ErrInvalid
	}
	p := kern.Current()
	fd := f.Desc()
	if fd == nil || f.std == 0 && p.FDs[f.num] != fd {
		return nil, nil, &os.PathError{Op: op, Path: f.name, Err: os.ErrClosed}
	}
	return p, fd, nil
}

func (f *File) Name() string { return f.name }

func (f *File) Fd() uintptr {
	if f == nil {
		return ^uintptr(0)
	}
	if f.std > 0 {
		return uintptr(f.std - 1)
	}
	return uintptr(f.num)
}

func (f *File) Read(b []byte) (int, error) {
	p, fd, err := f.check("read")
	if err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	n, e := p.Read(fd, b, -1)
	if e != 0 {
		return n, perr("read", f.name, e)
	}
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	p, fd, err := f.check("read")
	if err != nil {
		return 0, err
	}
	t := 0
	for t < len(b) {
		n, e := p.Read(fd, b[t:], off+int64(t))
		if e != 0 {
			return t, perr("read", f.name, e)
		}
		if n == 0 {
			return t, io.EOF
		}
		t += n
	}
	return t, nil
}

func (f *File) write(b []byte, off int64) (int, error) {
	p, fd, err := f.check("write")
	if err != nil {
		return 0, err
	}
	t := 0
	for {
		at := off
		if off >= 0 {
			at = off + int64(t)
		}
		n, e := p.Write(fd, b[t:], at)
		t += n
		if e != 0 {
			return t, perr("write", f.name, e)
		}
		if t >= len(b) {
			return t, nil
		}
		if n == 0 {
			return t, perr("write", f.name, syscall.EIO)
		}
	}
}

func (f *File) Write(b []byte) (int, error)              { return f.write(b, -1) }
func (f *File) WriteAt(b []byte, off int64) (int, error) { return f.write(b, off) }
func (f *File) WriteString(s string) (int, error)        { return f.write([]byte(s), -1) }
func (f *File) ReadFrom(r io.Reader) (int64, error)      { return io.Copy(onlyWriter{f}, r) }
func (f *File) WriteTo(w io.Writer) (int64, error)       { return io.Copy(w, onlyReader{f}) }
func (f *File) SetDeadline(time.Time) error              { return os.ErrNoDeadline }
func (f *File) SetReadDeadline(time.Time) error          { return os.ErrNoDeadline }
func (f *File) SetWriteDeadline(time.Time) error         { return os.ErrNoDeadline }
func (f *File) SyscallConn() (syscall.RawConn, error)    { return nil, syscall.EINVAL }
func (f *File) Chown(uid, gid int) error                 { return nil }

type onlyWriter struct{ io.Writer }
type onlyReader struct{ io.Reader }

func (f *File) Seek(off int64, whence int) (int64, error) {
	_, fd, err := f.check("seek")
	if err != nil {
		return 0, err
	}
	if fd.Kind != "file" && fd.Kind != "dir" {
		return 0, perr("seek", f.name, syscall.ESPIPE)
	}
	switch whence {
	case 1:
		off += fd.Off
	case 2:
		off += int64(len(fd.Node.Data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	fd.Off = off
	return off, nil
}

func (f *File) Close() error {
	p, fd, err := f.check("close")
	if err != nil {
		return err
	}
	if f.std > 0 {
		p.CloseStd(f.std - 1)
		return nil
	}
	_ = fd
	return perr("close", f.name, p.Close(f.num))
}

func (f *File) Sync() error {
	p, fd, err := f.check("sync")
	if err != nil {
		return err
	}
	return perr("sync", f.name, p.Sync(fd))
}

func (f *File) Truncate(size int64) error {
	p, fd, err := f.check("truncate")
	if err != nil {
		return err
	}
	return perr("truncate", f.name, p.Truncate(fd, size))
}

func (f *File) Chmod(mode os.FileMode) error {
	p, fd, err := f.check("chmod")
	if err != nil {
		return err
	}
	return perr("chmod", f.name, p.Chmod(f.name, fd, mode))
}

func (f *File) Chdir() error {
	p, fd, err := f.check("chdir")
	if err != nil {
		return err
	}
	return perr("chdir", f.name, p.Chdir(fd.Path))
}

func (f *File) Stat() (os.FileInfo, error) {
	p, fd, err := f.check("stat")
	if err != nil {
		return nil, err
	}
	st, e := p.Fstat(fd)
	if e != 0 {
		return nil, perr("stat", f.name, e)
	}
	st.Nm = base(f.name)
	return st, nil
}

func (f *File) readdir(n int) ([]*kern.Stat, error) {
	p, fd, err := f.check("readdir")
	if err != nil {
		return nil, err
	}
	if !f.read {
		sts, e := p.Readdir(fd)
		if e != 0 {
			return nil, perr("readdirent", f.name, e)
		}
		f.dirs = sts
		f.read = true
	}
	out := f.dirs
	if n > 0 {
		if len(out) == 0 {
			return nil, io.EOF
		}
		if len(out) > n {
			out = out[:n]
		}
	}
	f.dirs = f.dirs[len(out):]
	return out, nil
}

func (f *File) Readdir(n int) ([]os.FileInfo, error) {
	sts, err := f.readdir(n)
	if err != nil {
		return nil, err
	}
	var out []os.FileInfo
	for _, s := range sts {
		fi, err := Lstat(f.name + "/" + s.Nm)
		if errors.Is(err, fs.ErrNotExist) {
			continue
		}
		if err != nil {
			return out, err
		}
		out = append(out, fi)
	}
	return out, nil
}

func (f *File) Readdirnames(n int) ([]string, error) {
	sts, err := f.readdir(n)
	if err != nil {
		return nil, err
	}
	var out []string
	for _, s := range sts {
		out = append(out, s.Nm)
	}
	return out, nil
}

type dirEntry struct {
	dir string
	st  *kern.Stat
}

func (d dirEntry) Name() string               { return d.st.Nm }
func (d dirEntry) IsDir() bool                { return d.st.Dir }
func (d dirEntry) Type() fs.FileMode          { return d.st.Md.Type() }
func (d dirEntry) Info() (fs.FileInfo, error) { return Lstat(d.dir + "/" + d.st.Nm) }
func (d dirEntry) String() string             { return fs.FormatDirEntry(d) }

func (f *File) ReadDir(n int) ([]os.DirEntry, error) {
	sts, err := f.readdir(n)
	if err != nil {
		return nil, err
	}
	var out []os.DirEntry
	for _, s := range sts {
		out = append(out, dirEntry{f.name, s})
	}
	return out, nil
}

// ReadDir lists a directory in name order.
func ReadDir(name string) ([]os.DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	out, err := f.ReadDir(-1)
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out, err
}

func base(name string) string {
	for len(name) > 1 && name[len(name)-1] == '/' {
		name = name[:len(name)-1]
	}
	for i := len(name) - 1; i >= 0; i-- {
		if name[i] == '/' && i+1 < len(name) {
			return name[i+1:]
		}
	}
	return name
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	p := kern.Current()
	var fd *kern.FD
	var num int
	e := retry(func() (e syscall.Errno) { fd, num, e = p.Open(name, flag, perm); return })
	if e != 0 {
		return nil, perr("open", name, e)
	}
	return &File{fd: fd, num: num, name: name}, nil
}

func NewFile(fd uintptr, name string) *File {
	if fd < 3 {
		return &File{std: int(fd) + 1, name: name}
	}
	d := kern.Current().FDs[int(fd)]
	if d == nil {
		return nil
	}
	return &File{fd: d, num: int(fd), name: name}
}

func Pipe() (r, w *File, err error) {
	p := kern.Current()
	a, b := kern.NewPipe()
	return OpenDesc(p, a, "|0"), OpenDesc(p, b, "|1"), nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	fi, err := f.Stat()
	size := 0
	if err == nil {
		size = int(fi.Size())
	}
	data := make([]byte, 0, size+512)
	for {
		n, err := f.Read(data[len(data):cap(data)])
		data = data[:len(data)+n]
		if err != nil {
			if err == io.EOF {
				err = nil
			}
			return data, err
		}
		if len(data) >= cap(data) {
			d := append(data[:cap(data)], 0)
			data = d[:len(data)]
		}
	}
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Stat(name string) (os.FileInfo, error) {
	p := kern.Current()
	var st *kern.Stat
	e := retry(func() (e syscall.Errno) { st, e = p.Stat(name, true); return })
	if e != 0 {
		return nil, perr("stat", name, e)
	}
	return st, nil
}

func Lstat(name string) (os.FileInfo, error) {
	p := kern.Current()
	var st *kern.Stat
	e := retry(func() (e syscall.Errno) { st, e = p.Stat(name, false); return })
	if e != 0 {
		return nil, perr("lstat", name, e)
	}
	return st, nil
}

func SameFile(a, b os.FileInfo) bool {
	x, ok := a.(*kern.Stat)
	y, ok2 := b.(*kern.Stat)
	return ok && ok2 && x.Node == y.Node
}

func Mkdir(name string, perm os.FileMode) error {
	return perr("mkdir", name, kern.Current().Mkdir(name, perm))
}

func MkdirAll(path string, perm os.FileMode) error {
	dir, err := Stat(path)
	if err == nil {
		if dir.IsDir() {
			return nil
		}
		return perr("mkdir", path, syscall.ENOTDIR)
	}
	i := len(path) - 1
	for i >= 0 && path[i] == '/' {
		i--
	}
	for i >= 0 && path[i] != '/' {
		i--
	}
	if i > 0 {
		if err := MkdirAll(path[:i], perm); err != nil {
			return err
		}
	}
	err = Mkdir(path, perm)
	if err != nil {
		dir, err1 := Lstat(path)
		if err1 == nil && dir.IsDir() {
			return nil
		}
		return err
	}
	return nil
}

func Remove(name string) error {
	p := kern.Current()
	e := p.Unlink(name, false)
	if e == 0 {
		return nil
	}
	e1 := p.Unlink(name, true)
	if e1 == 0 {
		return nil
	}
	if e1 != syscall.ENOTDIR {
		e = e1
	}
	return perr("remove", name, e)
}

func RemoveAll(path string) error {
	if path == "" {
		return nil
	}
	if base(path) == "." {
		return perr("RemoveAll", path, syscall.EINVAL)
	}
	return removeAll(path)
}

func removeAll(path string) error {
	p := kern.Current()
	e := p.Unlink(path, false)
	if e == 0 || e == syscall.ENOENT {
		return nil
	}
	if e != syscall.EISDIR && e != syscall.EPERM && e != syscall.EACCES {
		return perr("unlinkat", path, e)
	}
	uerr := perr("unlinkat", path, e)
	f, err := OpenFile(path, os.O_RDONLY|syscall.O_NOFOLLOW|syscall.O_DIRECTORY, 0)
	if err != nil {
		if os.IsNotExist(err) {
			return nil
		}
		if errors.Is(err, syscall.ENOTDIR) || errors.Is(err, syscall.ELOOP) {
			return uerr
		}
		return err
	}
	names, err := f.Readdirnames(-1)
	f.Close()
	if err != nil {
		return err
	}
	var first error
	for _, n := range names {
		if err := removeAll(path + "/" + n); err != nil && first == nil {
			first = err
		}
	}
	e = p.Unlink(path, true)
	if e == 0 || e == syscall.ENOENT {
		return nil
	}
	if first != nil {
		return first
	}
	return perr("unlinkat", path, e)
}

func Rename(from, to string) error {
	if e := kern.Current().Rename(from, to); e != 0 {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: e}
	}
	return nil
}

func Link(from, to string) error {
	if e := kern.Current().Link(from, to); e != 0 {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: e}
	}
	return nil
}

func Symlink(from, to string) error {
	if e := kern.Current().Symlink(from, to); e != 0 {
		return &os.LinkError{Op: "symlink", Old: from, New: to, Err: e}
	}
	return nil
}

func Readlink(name string) (string, error) {
	t, e := kern.Current().Readlink(name)
	return t, perr("readlink", name, e)
}

func Truncate(name string, size int64) error {
	return perr("truncate", name, kern.Current().TruncatePath(name, size))
}

func Chmod(name string, mode os.FileMode) error {
	return perr("chmod", name, kern.Current().Chmod(name, nil, mode))
}

func Chown(name string, uid, gid int) error {
	return perr("chown", name, kern.Current().Touch("chown", name))
}

func Lchown(name string, uid, gid int) error {
	return perr("lchown", name, kern.Current().Touch("chown", name))
}

func Chtimes(name string, atime time.Time, mtime time.Time) error {
	return perr("chtimes", name, kern.Current().Touch("utimes", name))
}

func Chdir(dir string) error { return perr("chdir", dir, kern.Current().Chdir(dir)) }

func Getwd() (string, error) {
	// as the standard library: the environment is believed if it names the same directory
	if dir := Getenv("PWD"); len(dir) > 0 && dir[0] == '/' {
		dot, err := Stat(".")
		if err != nil {
			return "", err
		}
		if d, err := Stat(dir); err == nil && SameFile(dot, d) {
			return dir, nil
		}
	}
	d, e := kern.Current().Getcwd()
	if e != 0 {
		return "", os.NewSyscallError("getwd", e)
	}
	return d, nil
}

func TempDir() string {
	if d := Getenv("TMPDIR"); d != "" {
		return d
	}
	return "/tmp"
}

type dirFS string

// DirFS is the tree at dir.
func DirFS(dir string) fs.FS { return dirFS(dir) }

func (d dirFS) join(op, name string) (string, error) {
	if !fs.ValidPath(name) {
		return "", &os.PathError{Op: op, Path: name, Err: os.ErrInvalid}
	}
	return string(d) + "/" + name, nil
}

func (d dirFS) Open(name string) (fs.File, error) {
	p, err := d.join("open", name)
	if err != nil {
		return nil, err
	}
	f, err := Open(p)
	if err != nil {
		return nil, err
	}
	return f, nil
}

func (d dirFS) ReadFile(name string) ([]byte, error) {
	p, err := d.join("readfile", name)
	if err != nil {
		return nil, err
	}
	return ReadFile(p)
}

func (d dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
	p, err := d.join("readdir", name)
	if err != nil {
		return nil, err
	}
	return ReadDir(p)
}

func (d dirFS) Stat(name string) (fs.FileInfo, error) {
	p, err := d.join("stat", name)
	if err != nil {
		return nil, err
	}
	return Stat(p)
}
