//go:build go1.25

package kern

import (
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Inode is a file, directory or symbolic link.
type Inode struct {
	Ino     int
	Mode    fs.FileMode
	Data    []byte
	Kids    map[string]*Inode
	Target  string
	Mtime   time.Time
	Dev     string // mount point
	Nlink   int
	Writers int    // open for writing
	Running int    // being executed
	Chr     string // character device: "null", "full"
	Gen     int    // number of content changes
	locks   map[*FD]int
}

// IsDir tells whether the inode is a directory.
func (n *Inode) IsDir() bool { return n.Kids != nil }

// FS is the file system.
type FS struct {
	k      *Kernel
	Root   *Inode
	ino    int
	Mounts []string         // mount points other than "/"
	Cap    map[string]int64 // capacity by mount point
	// OnMutate is called after each successful change, in scheduler context (p may be nil for the harness).
	OnMutate func(p *Proc, kind, path string, n *Inode)

	journal bool
	undo    []func()          // changes of directories and inodes since the last flush, oldest first
	dirty   map[*Inode][]byte // files with content that is not on the disk, and what is there
}

// Journal makes the file system remember what a loss of power can undo; everything up to now is on the disk.
func (f *FS) Journal() {
	f.journal, f.undo, f.dirty = true, nil, map[*Inode][]byte{}
}

// set makes or removes (n is nil) an entry of a directory.
func (f *FS) set(dir *Inode, name string, n *Inode) func() {
	old := dir.Kids[name]
	if n == nil {
		delete(dir.Kids, name)
	} else {
		dir.Kids[name] = n
	}
	return func() {
		if old == nil {
			delete(dir.Kids, name)
		} else {
			dir.Kids[name] = old
		}
	}
}

func (f *FS) meta(undo func()) {
	if f.journal {
		f.undo = append(f.undo, undo)
	}
}

// soil says that the content of a file is about to change.
func (f *FS) soil(n *Inode) {
	if !f.journal || n == nil {
		return
	}
	if _, ok := f.dirty[n]; !ok {
		f.dirty[n] = n.Data
	}
}

// flush puts a file on the disk, and as most file systems do all earlier changes of directories with it.
func (f *FS) flush(n *Inode) {
	if f.journal {
		delete(f.dirty, n)
		f.undo = nil
	}
}

// Dirty tells how many changes of directories and which files are not on the disk.
func (f *FS) Dirty() (changes, files int) { return len(f.undo), len(f.dirty) }

// LosePower makes the file system what is found when the machine is on again: changes of directories are there up to
// some point after the last flush; a file that was changed since it was flushed has its old content, or all, a part or
// nothing of its new content, or zeros instead of it. All processes must be dead.
func (f *FS) LosePower(choose func(key string, n int) int) {
	k := 0
	if choose("undo", 2) == 1 {
		k = choose("changes", len(f.undo)+1)
	}
	for i := 0; i < k; i++ {
		f.undo[len(f.undo)-1-i]()
	}
	var ns []*Inode
	for n := range f.dirty {
		ns = append(ns, n)
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i].Ino < ns[j].Ino })
	for _, n := range ns {
		key := "ino" + itoa(n.Ino)
		switch choose(key, 5) {
		case 1:
			n.Data = f.dirty[n]
		case 2:
			n.Data = nil
		case 3:
			n.Data = append([]byte(nil), n.Data[:choose(key+"/part", len(n.Data)+1)]...)
		case 4:
			d := make([]byte, len(n.Data))
			copy(d, n.Data[:choose(key+"/part", len(n.Data)+1)])
			n.Data = d
		}
		n.Gen++
	}
	f.Journal()
}

func newFS(k *Kernel) *FS {
	f := &FS{k: k, Cap: map[string]int64{}}
	f.Root = f.node(fs.ModeDir|0755, "/")
	f.Root.Nlink = 1
	return f
}

func (f *FS) node(mode fs.FileMode, dev string) *Inode {
	f.ino++
	n := &Inode{Ino: f.ino, Mode: mode, Dev: dev, Mtime: time.Now()}
	if mode.IsDir() {
		n.Kids = map[string]*Inode{}
	}
	return n
}

func (f *FS) devOf(p string) string {
	best := "/"
	for _, m := range f.Mounts {
		if (p == m || strings.HasPrefix(p, m+"/")) && len(m) > len(best) {
			best = m
		}
	}
	return best
}

// Used returns the bytes in use on a mount.
func (f *FS) Used(dev string) int64 {
	var t int64
	seen := map[*Inode]bool{}
	var walk func(n *Inode)
	walk = func(n *Inode) {
		if n.Dev == dev && !seen[n] {
			seen[n] = true
			t += int64(len(n.Data))
		}
		for _, c := range n.Kids {
			walk(c)
		}
	}
	walk(f.Root)
	return t
}

type lookup struct {
	dir  *Inode // parent directory
	name string
	node *Inode // nil if absent
	path string // canonical path
}

// resolve walks a path. With follow false a final symbolic link is not followed.
func (f *FS) resolve(cwd, p string, follow bool) (lookup, syscall.Errno) {
	return f.resolveDepth(cwd, p, follow, 0)
}

func (f *FS) resolveDepth(cwd, p string, follow bool, depth int) (lookup, syscall.Errno) {
	if depth > 20 {
		return lookup{}, syscall.ELOOP
	}
	if p == "" {
		return lookup{}, syscall.ENOENT
	}
	if strings.IndexByte(p, 0) >= 0 {
		return lookup{}, syscall.EINVAL
	}
	slash := strings.HasSuffix(p, "/")
	if !strings.HasPrefix(p, "/") {
		p = cwd + "/" + p
	}
	type elem struct {
		n    *Inode
		path string
	}
	stack := []elem{{f.Root, "/"}}
	parts := strings.Split(p, "/")
	var clean []string
	for _, x := range parts {
		if x != "" && x != "." {
			clean = append(clean, x)
		}
	}
	if len(clean) == 0 {
		return lookup{f.Root, "", f.Root, "/"}, 0
	}
	for i, name := range clean {
		cur := stack[len(stack)-1]
		last := i == len(clean)-1
		if cur.n.Kids == nil {
			return lookup{}, syscall.ENOTDIR
		}
		if name == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			if last {
				e := stack[len(stack)-1]
				if len(stack) == 1 {
					return lookup{f.Root, "", f.Root, "/"}, 0
				}
				return lookup{stack[len(stack)-2].n, path.Base(e.path), e.n, e.path}, 0
			}
			continue
		}
		if len(name) > 255 {
			return lookup{}, syscall.ENAMETOOLONG
		}
		next := cur.n.Kids[name]
		np := path.Join(cur.path, name)
		if next == nil {
			if last {
				return lookup{cur.n, name, nil, np}, 0
			}
			return lookup{}, syscall.ENOENT
		}
		if next.Target != "" && (!last || follow || slash) {
			t := next.Target
			if rest := clean[i+1:]; len(rest) > 0 {
				t += "/" + strings.Join(rest, "/")
			}
			return f.resolveDepth(cur.path, t, follow, depth+1)
		}
		if last {
			if slash && next.Kids == nil {
				return lookup{}, syscall.ENOTDIR
			}
			return lookup{cur.n, name, next, np}, 0
		}
		stack = append(stack, elem{next, np})
	}
	panic("unreachable")
}

func (f *FS) mutated(p *Proc, kind, path string, n *Inode) {
	if f.OnMutate != nil {
		f.OnMutate(p, kind, path, n)
	}
}

// Canon returns the canonical form of a path whose parent exists, or a cleaned one.
func (f *FS) Canon(cwd, p string) string {
	l, e := f.resolve(cwd, p, true)
	if e != 0 {
		if !strings.HasPrefix(p, "/") {
			p = cwd + "/" + p
		}
		return path.Clean(p)
	}
	return l.path
}

// Lookup finds a node without scheduling (harness use).
func (f *FS) Lookup(p string) *Inode {
	l, e := f.resolve("/", p, false)
	if e != 0 {
		return nil
	}
	return l.node
}

// LookupFollow finds a node, following a final link.
func (f *FS) LookupFollow(p string) *Inode {
	l, e := f.resolve("/", p, true)
	if e != 0 {
		return nil
	}
	return l.node
}

// MkdirAll creates directories (harness use).
func (f *FS) MkdirAll(p string) {
	cur := f.Root
	at := ""
	for _, x := range strings.Split(p, "/") {
		if x == "" {
			continue
		}
		at += "/" + x
		n := cur.Kids[x]
		if n == nil {
			n = f.node(fs.ModeDir|0755, f.devOf(at))
			n.Nlink = 1
			cur.Kids[x] = n
		}
		if n.Target != "" {
			n = f.LookupFollow(at)
			if n == nil {
				panic("verif: cannot create " + p)
			}
		}
		cur = n
	}
}

// Put creates or replaces a file (harness use).
func (f *FS) Put(p string, data []byte, mode fs.FileMode) *Inode {
	f.MkdirAll(path.Dir(p))
	l, e := f.resolve("/", p, true)
	if e != 0 {
		panic("verif: cannot create " + p)
	}
	n := l.node
	if n == nil {
		n = f.node(mode, f.devOf(l.path))
		n.Nlink = 1
		l.dir.Kids[l.name] = n
	}
	n.Data = append([]byte(nil), data...)
	n.Mode = mode
	n.Gen++
	return n
}

// Remove removes a name with everything below it (harness use).
func (f *FS) Remove(p string) {
	if l, e := f.resolve("/", p, false); e == 0 && l.node != nil && l.dir != nil {
		delete(l.dir.Kids, l.name)
		if !l.node.IsDir() {
			l.node.Nlink--
		}
	}
}

// Symlink creates a link (harness use).
func (f *FS) Symlink(target, p string) {
	f.MkdirAll(path.Dir(p))
	l, _ := f.resolve("/", p, false)
	n := f.node(fs.ModeSymlink|0777, l.dir.Dev)
	n.Target = target
	n.Nlink = 1
	l.dir.Kids[l.name] = n
}

// Get reads a file (harness use).
func (f *FS) Get(p string) ([]byte, bool) {
	n := f.LookupFollow(p)
	if n == nil || n.IsDir() {
		return nil, false
	}
	return n.Data, true
}

// Entry is one node of a tree listing.
type Entry struct {
	Path string
	Node *Inode
}

// Tree lists a subtree in path order, the root excluded.
func (f *FS) Tree(root string) []Entry {
	var out []Entry
	var walk func(p string, n *Inode)
	walk = func(p string, n *Inode) {
		for _, name := range sortedNames(n) {
			c := n.Kids[name]
			cp := path.Join(p, name)
			out = append(out, Entry{cp, c})
			walk(cp, c)
		}
	}
	if n := f.LookupFollow(root); n != nil {
		walk(root, n)
	}
	return out
}

// Snapshot maps path to a description of type, mode and content of everything under root.
func (f *FS) Snapshot(root string) map[string]string {
	m := map[string]string{}
	for _, e := range f.Tree(root) {
		switch {
		case e.Node.IsDir():
			m[e.Path] = "dir"
		case e.Node.Target != "":
			m[e.Path] = "-> " + e.Node.Target
		default:
			m[e.Path] = "file " + e.Node.Mode.String() + "\n" + string(e.Node.Data)
		}
	}
	return m
}

func sortedNames(n *Inode) []string {
	names := make([]string, 0, len(n.Kids))
	for x := range n.Kids {
		names = append(names, x)
	}
	sort.Strings(names)
	return names
}

// Stat is the result of a stat call.
type Stat struct {
	Nm   string
	Node *Inode
	Sz   int64
	Md   fs.FileMode
	Mt   time.Time
	Dir  bool
}

func (s *Stat) Name() string       { return s.Nm }
func (s *Stat) Size() int64        { return s.Sz }
func (s *Stat) Mode() fs.FileMode  { return s.Md }
func (s *Stat) ModTime() time.Time { return s.Mt }
func (s *Stat) IsDir() bool        { return s.Dir }
func (s *Stat) Sys() interface{} {
	return &syscall.Stat_t{Ino: uint64(s.Node.Ino), Size: s.Sz, Mode: uint32(s.Md.Perm())}
}

// StatOf describes a node.
func StatOf(name string, n *Inode) *Stat {
	s := &Stat{Nm: path.Base(name), Node: n, Sz: int64(len(n.Data)), Md: n.Mode, Mt: n.Mtime, Dir: n.IsDir()}
	if n.Target != "" {
		s.Sz = int64(len(n.Target))
	}
	if n.Chr != "" {
		s.Md |= fs.ModeDevice | fs.ModeCharDevice
	}
	return s
}

// FD is an open file description.
type FD struct {
	Kind   string // "file", "dir", "pipe.r", "pipe.w", "sink", "source"
	Node   *Inode
	Path   string
	Flags  int
	Off    int64
	Write  bool
	Read   bool
	Append bool
	Pipe   *Pipe
	Sink   *Sink
	Source *Source
	Closed bool
	refs   int
	names  []string // directory read position
	wrote  []edit
	Num    int
}

type edit struct {
	off int64
	n   int
}

// Pipe is an anonymous pipe.
type Pipe struct {
	buf     []byte
	readers int
	writers int
}

// Sink receives the bytes of a standard output or error stream.
type Sink struct {
	Data  []byte
	Fail  syscall.Errno // error of writes once Limit bytes were taken
	Limit int           // bytes accepted before failing; -1: never fails
	Lost  bool          // a write failed
}

// Source provides the bytes of a standard input stream.
type Source struct {
	Data   []byte
	Chunks []int                // sizes of successive reads (default: everything)
	Delays []time.Duration      // time before each chunk becomes available
	Err    syscall.Errno        // error instead of end of file
	NoEOF  bool                 // never ends
	Gate   func(chunk int) bool // whether the writer is ready to provide a chunk, or the end
	next   int
	used   int
	ready  time.Time
	timed  bool
}

const pipeCap = 65536

// NewPipe returns the two ends of a pipe.
func NewPipe() (r, w *FD) {
	p := &Pipe{readers: 1, writers: 1}
	return &FD{Kind: "pipe.r", Pipe: p, Read: true, Path: "pipe"}, &FD{Kind: "pipe.w", Pipe: p, Write: true, Path: "pipe"}
}

// addFD installs a description in a process.
func (p *Proc) addFD(fd *FD) int {
	n := 3
	for p.FDs[n] != nil {
		n++
	}
	fd.refs++
	fd.Num = n
	p.FDs[n] = fd
	if len(p.FDs) > p.Opens {
		p.Opens = len(p.FDs)
	}
	return n
}

// Adopt installs a description in a process (used for the ends of pipes).
func (p *Proc) Adopt(fd *FD) int { return p.addFD(fd) }

func (k *Kernel) closeFD(fd *FD, fault string) syscall.Errno {
	fd.refs--
	if fd.refs > 0 {
		return 0
	}
	fd.Closed = true
	switch fd.Kind {
	case "pipe.r":
		fd.Pipe.readers--
	case "pipe.w":
		fd.Pipe.writers--
	case "file":
		if fd.Write {
			fd.Node.Writers--
		}
		delete(fd.Node.locks, fd)
	}
	if fault == "close.EIO" {
		return syscall.EIO
	}
	return 0
}

func errnoOf(fault string) syscall.Errno {
	i := strings.IndexByte(fault, '.')
	switch fault[i+1:] {
	case "EIO":
		return syscall.EIO
	case "EACCES":
		return syscall.EACCES
	case "EPERM":
		return syscall.EPERM
	case "EMFILE":
		return syscall.EMFILE
	case "ENOSPC":
		return syscall.ENOSPC
	case "EROFS":
		return syscall.EROFS
	case "EAGAIN":
		return syscall.EAGAIN
	case "ENOMEM":
		return syscall.ENOMEM
	case "ENOLCK":
		return syscall.ENOLCK
	case "EBUSY":
		return syscall.EBUSY
	case "EDQUOT":
		return syscall.EDQUOT
	case "ESTALE":
		return syscall.ESTALE
	case "EXDEV":
		return syscall.EXDEV
	case "EINTR":
		return syscall.EINTR
	case "EPIPE":
		return syscall.EPIPE
	}
	panic("verif: unknown fault " + fault)
}

func res(e syscall.Errno) string {
	if e == 0 {
		return ""
	}
	return e.Error()
}

var (
	openFaults    = []string{"open.EIO", "open.EACCES", "open.EMFILE", "open.ESTALE"}
	createFaults  = []string{"open.EIO", "open.EACCES", "open.EMFILE", "open.ENOSPC", "open.EROFS"}
	statFaults    = []string{"stat.EIO", "stat.EACCES", "stat.ESTALE"}
	readFaults    = []string{"read.EIO", "read.ESTALE"}
	writeFaults   = []string{"write.ENOSPC", "write.EIO", "write.EDQUOT"}
	closeFaults   = []string{"close.EIO"}
	syncFaults    = []string{"sync.EIO"}
	mkdirFaults   = []string{"mkdir.EIO", "mkdir.EACCES", "mkdir.ENOSPC", "mkdir.EROFS"}
	unlinkFaults  = []string{"unlink.EIO", "unlink.EACCES", "unlink.EBUSY"}
	renameFaults  = []string{"rename.EIO", "rename.EACCES", "rename.ENOSPC"}
	readdirFaults = []string{"readdir.EIO", "readdir.ESTALE"}
	chmodFaults   = []string{"chmod.EPERM", "chmod.EIO"}
	lockFaults    = []string{"flock.ENOLCK", "flock.EIO"}
)

// Open flags.
const (
	oAccMode = syscall.O_ACCMODE
)

// Open opens a file.
func (p *Proc) Open(name string, flag int, perm fs.FileMode) (fd *FD, num int, errno syscall.Errno) {
	kinds := openFaults
	kind := "open"
	if flag&(syscall.O_CREAT|syscall.O_TRUNC) != 0 || flag&oAccMode != syscall.O_RDONLY {
		kinds = createFaults
		kind = "create"
	}
	p.Op(kind, name, kinds, nil, func(fault string) string {
		if fault != "" {
			errno = errnoOf(fault)
			return res(errno)
		}
		fd, errno = p.K.FS.open(p, name, flag, perm)
		if errno == 0 {
			num = p.addFD(fd)
		}
		return res(errno)
	})
	return
}

func (f *FS) open(p *Proc, name string, flag int, perm fs.FileMode) (*FD, syscall.Errno) {
	follow := flag&syscall.O_NOFOLLOW == 0 && flag&(syscall.O_CREAT|syscall.O_EXCL) != syscall.O_CREAT|syscall.O_EXCL
	l, e := f.resolve(p.Cwd, name, follow)
	if e != 0 {
		return nil, e
	}
	acc := flag & oAccMode
	write := acc == syscall.O_WRONLY || acc == syscall.O_RDWR
	if l.node == nil {
		if flag&syscall.O_CREAT == 0 {
			return nil, syscall.ENOENT
		}
		if strings.HasSuffix(name, "/") {
			return nil, syscall.EISDIR
		}
		if l.dir.Nlink == 0 {
			return nil, syscall.ENOENT
		}
		n := f.node(perm.Perm()&^0022, f.devOf(l.path))
		n.Nlink = 1
		f.meta(f.set(l.dir, l.name, n))
		l.node = n
		f.mutated(p, "create", l.path, n)
	} else {
		if flag&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL {
			return nil, syscall.EEXIST
		}
		if l.node.Target != "" {
			return nil, syscall.ELOOP
		}
		if l.node.IsDir() && (write || flag&syscall.O_CREAT != 0) {
			return nil, syscall.EISDIR
		}
		if flag&syscall.O_DIRECTORY != 0 && !l.node.IsDir() {
			return nil, syscall.ENOTDIR
		}
		if write && l.node.Running > 0 {
			return nil, syscall.ETXTBSY
		}
	}
	n := l.node
	if write && flag&syscall.O_TRUNC != 0 && n.Chr == "" {
		if len(n.Data) > 0 {
			f.soil(n)
			n.Data = nil
			n.Gen++
			n.Mtime = time.Now()
			f.mutated(p, "truncate", l.path, n)
		}
	}
	fd := &FD{Kind: "file", Node: n, Path: l.path, Flags: flag, Write: write, Read: acc != syscall.O_WRONLY, Append: flag&syscall.O_APPEND != 0}
	if n.IsDir() {
		fd.Kind = "dir"
	}
	if write {
		n.Writers++
	}
	if f.k.OnOpen != nil {
		f.k.OnOpen(p, l.path, n, write)
	}
	return fd, 0
}

// Read reads up to len(b) bytes. n==0 with errno 0 is end of file.
func (p *Proc) Read(fd *FD, b []byte, off int64) (n int, errno syscall.Errno) {
	if fd.Closed {
		return 0, syscall.EBADF
	}
	var kinds []string
	switch fd.Kind {
	case "file":
		kinds = readFaults
	case "source":
		kinds = []string{"stdin.EIO"}
	case "dir":
		return 0, syscall.EISDIR
	}
	if len(b) == 0 {
		return 0, 0
	}
	k := p.K
	var ready func() bool
	switch fd.Kind {
	case "pipe.r":
		ready = func() bool { return len(fd.Pipe.buf) > 0 || fd.Pipe.writers == 0 }
	case "source":
		ready = func() bool { return fd.Source.avail(k) }
	}
	short := false
	if fd.Kind == "file" && len(b) > 1 && k.Cfg.ShortP > 0 {
		g := p.gstate(rtID())
		short = k.Choose("short/"+p.Label+"/"+itoa(g.idx)+"/"+itoa(g.n), 2, k.Cfg.ShortP) == 1
	}
	p.Op("read", fd.Path, kinds, ready, func(fault string) string {
		if fault != "" {
			errno = syscall.EIO
			if fault != "stdin.EIO" {
				errno = errnoOf(fault)
			}
			return res(errno)
		}
		switch fd.Kind {
		case "pipe.r":
			n = copy(b, fd.Pipe.buf)
			fd.Pipe.buf = fd.Pipe.buf[n:]
		case "source":
			n, errno = fd.Source.take(b)
		case "file":
			if fd.Node.Chr != "" {
				return "eof"
			}
			at := fd.Off
			if off >= 0 {
				at = off
			}
			if at < int64(len(fd.Node.Data)) {
				d := fd.Node.Data[at:]
				if short && len(d) > 1 {
					d = d[:(len(d)+1)/2]
				}
				n = copy(b, d)
			}
			if off < 0 {
				fd.Off += int64(n)
			}
		default:
			errno = syscall.EBADF
		}
		if errno != 0 {
			return res(errno)
		}
		return itoa(n)
	})
	return
}

func (s *Source) avail(k *Kernel) bool {
	if len(s.Data) == 0 && s.NoEOF {
		return false
	}
	if s.Gate != nil && !s.Gate(s.next) {
		return false
	}
	if s.next < len(s.Delays) && s.Delays[s.next] > 0 {
		if !s.timed {
			s.timed = true
			s.ready = time.Now().Add(s.Delays[s.next])
			k.After(s.Delays[s.next], func() {})
		}
		return !time.Now().Before(s.ready)
	}
	return true
}

func (s *Source) take(b []byte) (int, syscall.Errno) {
	if len(s.Data) == 0 {
		return 0, s.Err
	}
	n := len(s.Data)
	if s.next < len(s.Chunks) && s.Chunks[s.next]-s.used < n && s.Chunks[s.next] > 0 {
		n = s.Chunks[s.next] - s.used
	}
	if n > len(b) {
		n = len(b)
		s.used += n
	} else {
		s.next++
		s.used = 0
		s.timed = false
	}
	copy(b, s.Data[:n])
	s.Data = s.Data[n:]
	return n, 0
}

// Write writes b, possibly only part of it (n < len(b) with errno 0 is a legal short write).
func (p *Proc) Write(fd *FD, b []byte, off int64) (n int, errno syscall.Errno) {
	if fd.Closed {
		return 0, syscall.EBADF
	}
	k := p.K
	var kinds []string
	var ready func() bool
	kind := "write"
	switch fd.Kind {
	case "file":
		if fd.Node.Chr == "" {
			kinds = writeFaults
		}
	case "pipe.w":
		kind = "pipewrite"
		ready = func() bool { return len(fd.Pipe.buf) < pipeCap || fd.Pipe.readers == 0 }
	case "sink":
		kind = "output"
		kinds = []string{"stdout.EPIPE", "stdout.ENOSPC", "stdout.EIO"}
	}
	torn := 0
	p.Op(kind, fd.Path, kinds, ready, func(fault string) string {
		switch fd.Kind {
		case "pipe.w":
			if fd.Pipe.readers == 0 {
				if p.Prog != "prototool" || fd == p.Std[1] || fd == p.Std[2] {
					k.Kill(p, syscall.SIGPIPE)
				}
				errno = syscall.EPIPE
				return res(errno)
			}
			n = pipeCap - len(fd.Pipe.buf)
			if n > len(b) {
				n = len(b)
			}
			fd.Pipe.buf = append(fd.Pipe.buf, b[:n]...)
			return itoa(n)
		case "sink":
			n, errno = fd.Sink.write(k, p, b, fault)
			if errno != 0 {
				return res(errno)
			}
			return itoa(n)
		case "file":
			if fd.Node.Chr == "full" {
				errno = syscall.ENOSPC
				return res(errno)
			}
			if fd.Node.Chr != "" {
				n = len(b)
				return itoa(n)
			}
			if !fd.Write {
				errno = syscall.EBADF
				return res(errno)
			}
			n = len(b)
			switch {
			case fault == "write.torn":
				n = torn + k.ChooseUniform("torn/"+p.Label+"/"+itoa(k.Step), len(b)+1)
			case fault == "write.ENOSPC" || fault == "write.EDQUOT":
				n = k.ChooseUniform("torn/"+p.Label+"/"+itoa(k.Step), len(b)+1)
				if n == len(b) && n > 0 {
					n--
				}
				errno = errnoOf(fault)
			case fault != "":
				n = 0
				errno = errnoOf(fault)
			case len(b) > 1 && k.Cfg.ShortP > 0 && k.Choose("shortw/"+p.Label+"/"+itoa(k.Step), 2, k.Cfg.ShortP) == 1:
				n = (len(b) + 1) / 2
			}
			if c, ok := k.FS.Cap[fd.Node.Dev]; ok {
				free := c - k.FS.Used(fd.Node.Dev)
				if free < 0 {
					free = 0
				}
				if int64(n) > free {
					n = int(free)
					errno = syscall.ENOSPC
					k.Fired["disk.full"]++
				}
			}
			at := fd.Off
			if off >= 0 {
				at = off
			}
			if fd.Append {
				at = int64(len(fd.Node.Data))
			}
			if n > 0 {
				end := at + int64(n)
				d := fd.Node.Data
				if int64(len(d)) < end {
					nd := make([]byte, end)
					copy(nd, d)
					d = nd
				} else {
					d = append([]byte(nil), d...)
				}
				copy(d[at:], b[:n])
				k.FS.soil(fd.Node)
				fd.Node.Data = d
				fd.Node.Gen++
				fd.Node.Mtime = time.Now()
				if off < 0 {
					fd.Off = end
				}
				fd.wrote = append(fd.wrote, edit{at, n})
				k.FS.mutated(p, "write", fd.Path, fd.Node)
			}
			if errno != 0 {
				return res(errno)
			}
			return itoa(n)
		}
		errno = syscall.EBADF
		return res(errno)
	})
	return
}

func (s *Sink) write(k *Kernel, p *Proc, b []byte, fault string) (int, syscall.Errno) {
	if fault != "" {
		s.Lost = true
		s.Limit = len(s.Data)
		s.Fail = errnoOf(fault)
	}
	if s.Fail != 0 && s.Limit >= 0 && len(s.Data)+len(b) > s.Limit {
		n := s.Limit - len(s.Data)
		if n < 0 {
			n = 0
		}
		s.Data = append(s.Data, b[:n]...)
		s.Lost = true
		if s.Fail == syscall.EPIPE {
			k.Kill(p, syscall.SIGPIPE)
		}
		return n, s.Fail
	}
	s.Data = append(s.Data, b...)
	return len(b), 0
}

// WriteInline writes to a sink without a scheduling point.
func (p *Proc) WriteInline(fd *FD, b []byte) (n int, errno syscall.Errno) {
	p.Inline("log", fd.Path, func() string {
		n, errno = fd.Sink.write(p.K, p, b, "")
		return itoa(n)
	})
	return
}

// Close closes a descriptor.
func (p *Proc) Close(num int) (errno syscall.Errno) {
	fd := p.FDs[num]
	if fd == nil {
		return syscall.EBADF
	}
	var kinds []string
	if fd.Kind == "file" && fd.Write && fd.Node.Chr == "" {
		kinds = closeFaults
	}
	p.Op("close", fd.Path, kinds, nil, func(fault string) string {
		if fault == "close.EIO" && len(fd.wrote) > 0 {
			// the last write never reached the disk
			w := fd.wrote[len(fd.wrote)-1]
			if int64(len(fd.Node.Data)) > w.off {
				p.K.FS.soil(fd.Node)
				fd.Node.Data = append([]byte(nil), fd.Node.Data[:w.off]...)
				fd.Node.Gen++
				p.K.FS.mutated(p, "write", fd.Path, fd.Node)
			}
		}
		delete(p.FDs, num)
		errno = p.K.closeFD(fd, fault)
		return res(errno)
	})
	return
}

// DropFD closes a descriptor without a scheduling point (scheduler context or process start).
func (p *Proc) DropFD(num int) {
	if fd := p.FDs[num]; fd != nil {
		delete(p.FDs, num)
		p.K.closeFD(fd, "")
	}
}

// Sync flushes a file.
func (p *Proc) Sync(fd *FD) (errno syscall.Errno) {
	p.Op("sync", fd.Path, syncFaults, nil, func(fault string) string {
		if fault != "" {
			errno = errnoOf(fault)
		} else {
			p.K.FS.flush(fd.Node)
		}
		return res(errno)
	})
	return
}

// Truncate changes the length of an open file.
func (p *Proc) Truncate(fd *FD, size int64) (errno syscall.Errno) {
	p.Op("truncate", fd.Path, []string{"truncate.EIO"}, nil, func(fault string) string {
		if fault != "" {
			errno = errnoOf(fault)
			return res(errno)
		}
		p.K.FS.truncate(p, fd.Path, fd.Node, size)
		return ""
	})
	return
}

func (f *FS) truncate(p *Proc, path string, n *Inode, size int64) {
	d := make([]byte, size)
	copy(d, n.Data)
	f.soil(n)
	n.Data = d
	n.Gen++
	f.mutated(p, "truncate", path, n)
}

// TruncatePath is truncate(2).
func (p *Proc) TruncatePath(name string, size int64) (errno syscall.Errno) {
	p.Op("truncate", name, []string{"truncate.EIO"}, nil, func(fault string) string {
		if fault != "" {
			errno = errnoOf(fault)
			return res(errno)
		}
		l, e := p.K.FS.resolve(p.Cwd, name, true)
		switch {
		case e != 0:
			errno = e
		case l.node == nil:
			errno = syscall.ENOENT
		case l.node.IsDir():
			errno = syscall.EISDIR
		default:
			p.K.FS.truncate(p, l.path, l.node, size)
		}
		return res(errno)
	})
	return
}

// Stat is stat or lstat.
func (p *Proc) Stat(name string, follow bool) (st *Stat, errno syscall.Errno) {
	kind := "stat"
	if !follow {
		kind = "lstat"
	}
	p.Op(kind, name, statFaults, nil, func(fault string) string {
		if fault != "" {
			errno = errnoOf(fault)
			return res(errno)
		}
		l, e := p.K.FS.resolve(p.Cwd, name, follow)
		if e == 0 && l.node == nil {
			e = syscall.ENOENT
		}
		if e == 0 {
			st = StatOf(name, l.node)
		}
		errno = e
		return res(errno)
	})
	return
}

// Fstat describes an open file.
func (p *Proc) Fstat(fd *FD) (st *Stat, errno syscall.Errno) {
	p.Op("fstat", fd.Path, []string{"stat.EIO"}, nil, func(fault string) string {
		if fault != "" {
			errno = errnoOf(fault)
			return res(errno)
		}
		if fd.Node == nil {
			st = &Stat{Nm: fd.Path, Node: &Inode{}, Md: fs.ModeNamedPipe | 0600}
			return ""
		}
		st = StatOf(fd.Path, fd.Node)
		return ""
	})
	return
}

// Mkdir creates a directory.
func (p *Proc) Mkdir(name string, perm fs.FileMode) (errno syscall.Errno) {
	p.Op("mkdir", name, mkdirFaults, nil, func(fault string) string {
		if fault != "" {
			errno = errnoOf(fault)
			return res(errno)
		}
		f := p.K.FS
		l, e := f.resolve(p.Cwd, strings.TrimRight(name, "/"), false)
		if name == "/" {
			e = syscall.EEXIST
		}
		switch {
		case e != 0:
			errno = e
		case l.node != nil:
			errno = syscall.EEXIST
		case l.dir.Nlink == 0:
			errno = syscall.ENOENT
		default:
			n := f.node(fs.ModeDir|perm.Perm()&^0022, f.devOf(l.path))
			n.Nlink = 1
			f.meta(f.set(l.dir, l.name, n))
			f.mutated(p, "mkdir", l.path, n)
		}
		return res(errno)
	})
	return
}

// Unlink removes a file (dir false) or an empty directory.
func (p *Proc) Unlink(name string, dir bool) (errno syscall.Errno) {
	kind := "unlink"
	if dir {
		kind = "rmdir"
	}
	p.Op(kind, name, unlinkFaults, nil, func(fault string) string {
		if fault != "" {
			errno = errnoOf(fault)
			return res(errno)
		}
		f := p.K.FS
		l, e := f.resolve(p.Cwd, strings.TrimRight(name, "/"), false)
		switch {
		case e != 0:
			errno = e
		case l.node == nil:
			errno = syscall.ENOENT
		case l.name == "":
			errno = syscall.EBUSY
		case dir && !l.node.IsDir():
			errno = syscall.ENOTDIR
		case !dir && l.node.IsDir():
			errno = syscall.EISDIR
		case dir && len(l.node.Kids) > 0:
			errno = syscall.ENOTEMPTY
		default:
			u := f.set(l.dir, l.name, nil)
			l.node.Nlink--
			f.meta(func() { u(); l.node.Nlink++ })
			f.mutated(p, kind, l.path, l.node)
		}
		return res(errno)
	})
	return
}

// Rename moves a file or directory.
func (p *Proc) Rename(from, to string) (errno syscall.Errno) {
	p.Op("rename", from+" "+to, renameFaults, nil, func(fault string) string {
		if fault != "" {
			errno = errnoOf(fault)
			return res(errno)
		}
		errno = p.K.FS.rename(p, from, to)
		return res(errno)
	})
	return
}

func (f *FS) rename(p *Proc, from, to string) syscall.Errno {
	a, e := f.resolve(p.Cwd, strings.TrimRight(from, "/"), false)
	if e != 0 {
		return e
	}
	if a.node == nil {
		return syscall.ENOENT
	}
	b, e := f.resolve(p.Cwd, strings.TrimRight(to, "/"), false)
	if e != 0 {
		return e
	}
	if a.dir.Dev != b.dir.Dev || a.node.Dev != a.dir.Dev {
		return syscall.EXDEV
	}
	if b.path == a.path {
		return 0
	}
	if a.node.IsDir() && strings.HasPrefix(b.path, a.path+"/") {
		return syscall.EINVAL
	}
	if b.node != nil {
		if b.node.IsDir() != a.node.IsDir() {
			if b.node.IsDir() {
				return syscall.EISDIR
			}
			return syscall.ENOTDIR
		}
		if b.node.IsDir() && len(b.node.Kids) > 0 {
			return syscall.ENOTEMPTY
		}
		b.node.Nlink--
	}
	if b.dir.Nlink == 0 {
		return syscall.ENOENT
	}
	ua := f.set(a.dir, a.name, nil)
	ub := f.set(b.dir, b.name, a.node)
	f.meta(func() {
		ub()
		ua()
		if b.node != nil {
			b.node.Nlink++
		}
	})
	f.mutated(p, "rename.from", a.path, a.node)
	f.mutated(p, "rename.to", b.path, a.node)
	return 0
}

// Link creates a hard link.
func (p *Proc) Link(from, to string) (errno syscall.Errno) {
	p.Op("link", from+" "+to, []string{"link.EIO", "link.EPERM"}, nil, func(fault string) string {
		if fault != "" {
			errno = errnoOf(fault)
			return res(errno)
		}
		f := p.K.FS
		a, e := f.resolve(p.Cwd, from, false)
		if e != 0 {
			errno = e
			return res(errno)
		}
		b, e := f.resolve(p.Cwd, to, false)
		switch {
		case e != 0:
			errno = e
		case a.node == nil:
			errno = syscall.ENOENT
		case b.node != nil:
			errno = syscall.EEXIST
		case a.node.IsDir():
			errno = syscall.EPERM
		case a.node.Dev != b.dir.Dev:
			errno = syscall.EXDEV
		default:
			u := f.set(b.dir, b.name, a.node)
			a.node.Nlink++
			f.meta(func() { u(); a.node.Nlink-- })
			f.mutated(p, "link", b.path, a.node)
		}
		return res(errno)
	})
	return
}

// Symlink creates a symbolic link.
func (p *Proc) Symlink(target, name string) (errno syscall.Errno) {
	p.Op("symlink", target+" "+name, []string{"symlink.EIO"}, nil, func(fault string) string {
		if fault != "" {
			errno = errnoOf(fault)
			return res(errno)
		}
		f := p.K.FS
		l, e := f.resolve(p.Cwd, name, false)
		switch {
		case e != 0:
			errno = e
		case l.node != nil:
			errno = syscall.EEXIST
		default:
			n := f.node(fs.ModeSymlink|0777, l.dir.Dev)
			n.Target = target
			n.Nlink = 1
			f.meta(f.set(l.dir, l.name, n))
			f.mutated(p, "symlink", l.path, n)
		}
		return res(errno)
	})
	return
}

// Readlink reads a symbolic link.
func (p *Proc) Readlink(name string) (target string, errno syscall.Errno) {
	p.Op("readlink", name, []string{"readlink.EIO"}, nil, func(fault string) string {
		if fault != "" {
			errno = errnoOf(fault)
			return res(errno)
		}
		l, e := p.K.FS.resolve(p.Cwd, name, false)
		switch {
		case e != 0:
			errno = e
		case l.node == nil:
			errno = syscall.ENOENT
		case l.node.Target == "":
			errno = syscall.EINVAL
		default:
			target = l.node.Target
		}
		return res(errno)
	})
	return
}

// Chmod changes permission bits. If fd is not nil it is fchmod.
func (p *Proc) Chmod(name string, fd *FD, mode fs.FileMode) (errno syscall.Errno) {
	p.Op("chmod", name, chmodFaults, nil, func(fault string) string {
		if fault != "" {
			errno = errnoOf(fault)
			return res(errno)
		}
		n := (*Inode)(nil)
		at := name
		if fd != nil {
			n = fd.Node
			at = fd.Path
		} else {
			l, e := p.K.FS.resolve(p.Cwd, name, true)
			if e != 0 {
				errno = e
				return res(errno)
			}
			n = l.node
			at = l.path
		}
		if n == nil {
			errno = syscall.ENOENT
			return res(errno)
		}
		old := n.Mode
		n.Mode = n.Mode&^fs.ModePerm | mode.Perm()
		p.K.FS.meta(func() { n.Mode = old })
		p.K.FS.mutated(p, "chmod", at, n)
		return ""
	})
	return
}

// Chtimes and Chown only check existence.
func (p *Proc) Touch(kind, name string) (errno syscall.Errno) {
	p.Op(kind, name, []string{kind + ".EPERM"}, nil, func(fault string) string {
		if fault != "" {
			errno = errnoOf(fault)
			return res(errno)
		}
		l, e := p.K.FS.resolve(p.Cwd, name, true)
		if e == 0 && l.node == nil {
			e = syscall.ENOENT
		}
		errno = e
		return res(errno)
	})
	return
}

// Readdir reads all remaining names of an open directory, in an order of the simulator's choosing.
func (p *Proc) Readdir(fd *FD) (out []*Stat, errno syscall.Errno) {
	if fd.Kind != "dir" {
		return nil, syscall.ENOTDIR
	}
	p.Op("readdir", fd.Path, readdirFaults, nil, func(fault string) string {
		if fault != "" {
			errno = errnoOf(fault)
			return res(errno)
		}
		if fd.Off > 0 {
			return "0"
		}
		fd.Off = 1
		names := sortedNames(fd.Node)
		k := p.K
		for i := len(names) - 1; i > 0; i-- {
			j := i - k.ChooseUniform("dirorder/"+itoa(k.Step)+"/"+itoa(i), i+1)
			names[i], names[j] = names[j], names[i]
		}
		for _, n := range names {
			out = append(out, StatOf(n, fd.Node.Kids[n]))
		}
		return itoa(len(out))
	})
	return
}

// Flock is flock(2).
func (p *Proc) Flock(num int, how int) (errno syscall.Errno) {
	fd := p.FDs[num]
	if fd == nil || fd.Node == nil {
		return syscall.EBADF
	}
	n := fd.Node
	mode := how &^ syscall.LOCK_NB
	free := func() bool {
		for o, m := range n.locks {
			if o != fd && (m == syscall.LOCK_EX || mode == syscall.LOCK_EX) {
				return false
			}
		}
		return true
	}
	var ready func() bool
	var kinds []string
	if mode != syscall.LOCK_UN {
		kinds = lockFaults
		if how&syscall.LOCK_NB == 0 {
			ready = free
		}
	} else {
		kinds = []string{"funlock.EIO"}
	}
	desc := map[int]string{syscall.LOCK_EX: "ex", syscall.LOCK_SH: "sh", syscall.LOCK_UN: "un"}[mode]
	p.Op("flock", desc+" "+fd.Path, kinds, ready, func(fault string) string {
		if fault != "" {
			errno = errnoOf(fault)
			return res(errno)
		}
		if n.locks == nil {
			n.locks = map[*FD]int{}
		}
		if mode == syscall.LOCK_UN {
			delete(n.locks, fd)
			return ""
		}
		if !free() {
			errno = syscall.EWOULDBLOCK
			return res(errno)
		}
		n.locks[fd] = mode
		return ""
	})
	return
}

// Locks lists the nodes on which the process holds a flock.
func (p *Proc) Locks() []*Inode {
	var out []*Inode
	for _, fd := range p.FDs {
		if fd.Node != nil {
			if _, ok := fd.Node.locks[fd]; ok {
				out = append(out, fd.Node)
			}
		}
	}
	return out
}

// LockedBy lists the processes that hold a flock on the node at path.
func (k *Kernel) LockedBy(node *Inode) []*Proc {
	var out []*Proc
	for _, p := range k.Procs {
		if p.Dead {
			continue
		}
		for _, fd := range p.FDs {
			if fd.Node == node && node != nil {
				if _, ok := node.locks[fd]; ok {
					out = append(out, p)
				}
			}
		}
	}
	return out
}

// Chdir changes the working directory.
func (p *Proc) Chdir(name string) (errno syscall.Errno) {
	p.Op("chdir", name, nil, nil, func(string) string {
		l, e := p.K.FS.resolve(p.Cwd, name, true)
		switch {
		case e != 0:
			errno = e
		case l.node == nil:
			errno = syscall.ENOENT
		case !l.node.IsDir():
			errno = syscall.ENOTDIR
		default:
			p.Cwd = l.path
		}
		return res(errno)
	})
	return
}

// Getcwd returns the working directory.
func (p *Proc) Getcwd() (dir string, errno syscall.Errno) {
	p.Op("getcwd", "", []string{"getcwd.EACCES"}, nil, func(fault string) string {
		if fault != "" {
			errno = errnoOf(fault)
			return res(errno)
		}
		dir = p.Cwd
		return dir
	})
	return
}

// CloseStd closes a standard stream.
func (p *Proc) CloseStd(i int) {
	fd := p.Std[i]
	p.Op("close", fmt.Sprintf("fd %d", i), nil, nil, func(string) string {
		if fd != nil {
			p.K.closeFD(fd, "")
			p.Std[i] = nil
		}
		return ""
	})
}
