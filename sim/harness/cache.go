//go:build go1.25

package harness

import (
	"crypto/sha512"
	"encoding/base64"
	"fmt"
	"io/fs"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/kern"
)

// cacheUser is a command that needs protoc from a cache.
type cacheUser struct {
	Label string
	Cwd   string
	Args  []string
	Env   map[string]string
	Dir   string // the cache directory
	Base  string // the install directory
	URL   string // where the archive comes from
	Ver   string
	Uses  bool // it runs protoc
}

// lab is a machine with caches and several projects.
type lab struct {
	c      *Ctx
	s      *Sim
	prop   string
	bases  map[string]string // install directory to URL
	lax    map[string]bool   // install directories somebody tampered with
	seen   map[string]bool
	files  map[string]map[string]string // projects
	mirror map[string]string            // URL to version
	viol   bool
	users  map[string]*cacheUser // by label of the process
	had    map[*kern.Proc]bool   // it got a lock
	got    map[*kern.Proc]time.Duration
	tried  map[*kern.Proc]string // the lock file it tried last
	held   map[string][]span     // when a lock was held, by file
	last   time.Duration
}

// span is a time during which a lock was held.
type span struct {
	from, to time.Duration
	by       string
}

const (
	oldWork   = "/work/old"
	rcWork    = "/work/rc"
	rcVer     = "3.11.0-rc-1"
	mirrorURL = "https://mirror.example.com/protoc.zip"
	otherURL  = "http://mirror.example.com/other/protoc.zip?x=1"
	fileURL   = "file:///srv/protoc.zip"
	file2URL  = "file:///srv/v2/protoc.zip"
	customDir = "/var/cache/ptool"
	xdgDir    = "/home/u/xdg"
)

// alikeURLs differ from other URLs in one part only.
var alikeURLs = []string{mirrorURL + "?release=3.9.2", file2URL, mirrorURL + "?release=3.11.0", "http" + strings.TrimPrefix(mirrorURL, "https"), strings.Replace(mirrorURL, "protoc", "Protoc", 1), mirrorURL + "/"}

// lab prepares the projects; the machine comes later.
func (c *Ctx) newLab() *lab {
	l := &lab{c: c, prop: c.Case.Prop, files: map[string]map[string]string{}}
	proto := func(pkg string) string {
		return "syntax = \"proto3\";\n\npackage " + pkg + ";\n\nimport \"google/protobuf/timestamp.proto\";\n\nmessage A {\n  google.protobuf.Timestamp at = 1;\n}\n"
	}
	l.files[Work] = map[string]string{"prototool.yaml": "protoc:\n  version: 3.11.0\nlint:\n  rules:\n    no_default: true\n    add:\n      - MESSAGE_NAMES_CAMEL_CASE\n", "a/a.proto": proto("a")}
	l.files[oldWork] = map[string]string{"prototool.yaml": "protoc:\n  version: 3.10.1\nlint:\n  rules:\n    no_default: true\n    add:\n      - MESSAGE_NAMES_CAMEL_CASE\n", "a/a.proto": proto("a")}
	l.files[rcWork] = map[string]string{"prototool.yaml": strings.Replace(l.files[oldWork]["prototool.yaml"], "3.10.1", rcVer, 1), "a/a.proto": proto("a")}
	if c.P("moredirs", 0.4) {
		l.files[Work]["b/b.proto"] = proto("b")
	}
	l.mirror = map[string]string{mirrorURL: DefaultVer, otherURL: "3.9.2", fileURL: "3.10.1"}
	for i, u := range alikeURLs {
		l.mirror[u] = []string{"3.9.2", "3.10.1", DefaultVer}[i%3]
	}
	return l
}

// machine sets up a machine.
func (l *lab) machine(s *Sim) *lab {
	c := l.c
	n := *l
	n.s, n.bases, n.lax, n.seen, n.viol = s, map[string]string{}, map[string]bool{}, map[string]bool{}, false
	n.got = map[*kern.Proc]time.Duration{}
	n.users, n.had, n.tried, n.held = map[string]*cacheUser{}, map[*kern.Proc]bool{}, map[*kern.Proc]string{}, map[string][]span{}
	s.World()
	for d, files := range l.files {
		s.Write(d, files)
	}
	first := c.P("protocfirst", 0.4)
	for _, v := range []string{DefaultVer, "3.10.1", "3.9.2", rcVer} {
		s.addArchive(URL(v), v, first)
	}
	for _, u := range sortedKeys(l.mirror) {
		s.addArchive(u, l.mirror[u], first)
	}
	return &n
}

// addArchive serves a release, whose executable comes first or somewhere.
func (s *Sim) addArchive(url, version string, first bool) {
	s.AddRelease(url, version)
	if first {
		files := archiveFiles(version)
		ents := []zent{{"bin/protoc", files["bin/protoc"], 0755}}
		for _, n := range sortedBytes(files) {
			if n != "bin/protoc" {
				ents = append(ents, zent{n, files[n], 0644})
			}
		}
		s.K.Net.Resp[url].Body = buildZip(ents)
	}
	if strings.HasPrefix(url, "file://") {
		s.K.FS.Put(strings.TrimPrefix(url, "file://"), s.K.Net.Resp[url].Body, 0644)
		delete(s.K.Net.Resp, url)
	}
}

func sortedBytes(m map[string][]byte) []string {
	var out []string
	for n := range m {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// user generates a command that uses a cache.
func (l *lab) user(key string) *cacheUser {
	c := l.c
	u := &cacheUser{Label: key, Cwd: Work, Ver: DefaultVer, Env: map[string]string{}}
	kind := c.Pick(key+"/kind", "compile", "compile", "update", "lint", "generate", "ds", "all", "compile-arg")
	if c.P(key+"/old", 0.2) {
		u.Cwd, u.Ver = oldWork, "3.10.1"
		if c.P(key+"/rc", 0.5) {
			u.Cwd, u.Ver = rcWork, rcVer
		}
	}
	u.URL = URL(u.Ver)
	part := u.Ver
	u.Uses = kind != "update"
	switch kind {
	case "update":
		u.Args = []string{"cache", "update"}
	case "ds":
		u.Args = []string{"descriptor-set", "-o", "/tmp/" + key + ".bin"}
	case "compile-arg":
		u.Args = []string{"compile", "a"}
	default:
		u.Args = []string{kind}
	}
	if kind != "update" && c.P(key+"/url", 0.25) {
		u.URL = c.Pick(key+"/which", append([]string{mirrorURL, mirrorURL, otherURL, fileURL, fileURL}, alikeURLs...)...)
		u.Ver = l.mirror[u.URL]
		u.Args = append(u.Args, "--protoc-url", u.URL)
		h := sha512.Sum512([]byte(u.URL))
		part = base64.URLEncoding.EncodeToString(h[:])
	}
	u.Dir = DefaultCache + "/Linux/x86_64"
	switch c.Pick(key+"/cache", "", "", "", "", "env", "flag", "rel", "xdg", "flagenv") {
	case "env":
		u.Env["PROTOTOOL_CACHE_PATH"] = customDir
		u.Dir = customDir
	case "flag":
		u.Args = append(u.Args, "--cache-path", customDir)
		u.Dir = customDir
	case "rel":
		u.Args = append(u.Args, "--cache-path", "../pcache/x")
		u.Dir = "/work/pcache/x"
	case "xdg":
		u.Env["XDG_CACHE_HOME"] = xdgDir
		u.Dir = xdgDir + "/prototool/Linux/x86_64"
	case "flagenv":
		u.Env["PROTOTOOL_CACHE_PATH"] = "/var/cache/unused"
		u.Args = append(u.Args, "--cache-path", customDir+"/")
		u.Dir = customDir
	}
	u.Base = u.Dir + "/protobuf/" + part
	return u
}

// like is the same command once more.
func (u *cacheUser) like(label string) *cacheUser {
	v := *u
	v.Label = label
	return &v
}

// start starts it.
func (l *lab) start(u *cacheUser, o RunOpts) *Run {
	l.bases[u.Base] = u.URL
	l.users[u.Label] = u
	o.Cwd = u.Cwd
	o.Env = u.Env
	return l.s.Start(u.Label, o, u.Args...)
}

// baseOf finds the install directory a path is in.
func (l *lab) baseOf(p string) string {
	for b := range l.bases {
		if under(p, b) {
			return b
		}
	}
	return ""
}

// incomplete compares an install with its archive.
func (l *lab) incomplete(base string) string {
	want := l.s.wd.Archives[l.bases[base]]
	for _, n := range sortedBytes(want) {
		b, ok := l.s.K.FS.Get(base + "/" + n)
		if !ok {
			return n + " is missing"
		}
		if string(b) != string(want[n]) {
			return fmt.Sprintf("%s has the wrong content (%d bytes instead of %d)", n, len(b), len(want[n]))
		}
	}
	return ""
}

// holds tells whether a process holds a file lock.
func holds(p *kern.Proc) bool {
	for _, n := range p.Locks() {
		if n != nil {
			return true
		}
	}
	return false
}

// watch checks every use of an install, and who changes it when.
func (l *lab) watch() {
	k := l.s.K
	owner := func(p *kern.Proc) *kern.Proc {
		for p.Parent != nil && p.Prog != "prototool" {
			p = p.Parent
		}
		return p
	}
	use := func(p *kern.Proc, name, how string) {
		if owner(p).Prog != "prototool" || p.Prog == "prototool" && strings.HasPrefix(how, "open") {
			return
		}
		base := l.baseOf(name)
		if base == "" || l.viol {
			return
		}
		if u := l.users[root(p).Label]; u != nil && u.Base != base {
			l.viol = true
			k.Violate(fmt.Sprintf("mixed|%s %ss %s instead of something in %s", root(p).Label, how, name, u.Base))
			return
		}
		if what := l.incomplete(base); what != "" {
			l.viol = true
			k.Violate(fmt.Sprintf("incomplete|%s %ss %s while %s", root(p).Label, how, strings.TrimPrefix(name, base+"/"), what))
		}
	}
	k.OnEvent = func(e *kern.Event) {
		if e.Kind != "flock" || e.P == nil {
			return
		}
		name := e.Arg[strings.IndexByte(e.Arg, ' ')+1:]
		l.tried[e.P] = name
		if l.held[name] == nil {
			l.held[name] = []span{}
		}
		if e.Res == "" && strings.HasPrefix(e.Arg, "ex ") {
			if !l.had[e.P] {
				l.got[e.P] = k.Now()
			}
			l.had[e.P] = true
		}
	}
	k.OnStep = func() {
		if l.prop != "C03" {
			return
		}
		now := k.Now()
		for b := range l.held {
			by := ""
			if n := k.FS.Lookup(b); n != nil {
				for _, h := range k.LockedBy(n) {
					by += h.Label + " "
				}
			}
			if by == "" {
				continue
			}
			sp := l.held[b]
			if len(sp) > 0 && sp[len(sp)-1].by == by && sp[len(sp)-1].to >= l.last {
				sp[len(sp)-1].to = now
				continue
			}
			l.held[b] = append(sp, span{now, now, by})
		}
		l.last = now
	}
	k.OnExec = func(p *kern.Proc, name string, node *kern.Inode) {
		if base := l.baseOf(name); base != "" && p.Prog == "prototool" && !l.had[p] && !l.viol {
			l.viol = true
			k.Violate(fmt.Sprintf("unlocked|%s executes %s without ever having got the lock", p.Label, name))
		}
		// what is executed to find out whether the install is any good does not count
		if a := k.ExecArgv; len(a) == 2 && a[1] == "--version" {
			return
		}
		use(p, name, "execute")
		if base := l.baseOf(name); base != "" && p.Prog == "prototool" {
			if l.prop == "C03" && !l.viol && holds(p) {
				l.viol = true
				k.Violate(fmt.Sprintf("held|%s still holds the lock when it executes %s", p.Label, name))
			}
		}
	}
	k.OnOpen = func(p *kern.Proc, name string, node *kern.Inode, write bool) {
		if !write {
			use(p, name, "open")
		}
	}
	was := k.FS.OnMutate
	k.FS.OnMutate = func(p *kern.Proc, kind, name string, n *kern.Inode) {
		if was != nil {
			was(p, kind, name, n)
		}
		if p == nil || l.viol || p.Prog != "prototool" {
			return
		}
		base := l.baseOf(name)
		for b := range l.bases {
			if under(name, b+".tmp") {
				base = b
			}
		}
		if base == "" {
			return
		}
		if !holds(p) {
			l.viol = true
			k.Violate(fmt.Sprintf("unlocked|%s changes %s (%s) without holding the lock", p.Label, name, kind))
			return
		}
		for f := range l.held {
			if n := k.FS.Lookup(f); n != nil {
				for _, h := range k.LockedBy(n) {
					if h == p {
						return
					}
				}
			}
		}
		l.viol = true
		k.Violate(fmt.Sprintf("unlocked|%s changes %s (%s) while the file that it locked is no longer there, and excludes nobody", p.Label, name, kind))
	}
}

// settle runs the users once more without any faults: they have to succeed, and leave everything complete.
func (l *lab) settle(users []*cacheUser) {
	c := l.c
	for _, p := range l.s.K.Procs {
		if !p.Dead && p.Prog != "remote" {
			l.s.K.Kill(p, syscall.SIGKILL)
		}
	}
	l.s.Run()
	done := map[string]bool{}
	for i, u := range users {
		if done[u.Base] {
			continue
		}
		done[u.Base] = true
		v := u.like(fmt.Sprintf("settle%d", i))
		r := l.start(v, RunOpts{})
		l.s.Run()
		if !r.OK() {
			c.Violate(l.prop+".stuck", "after the faults, %s; the cache: %s; faults: %s", r.Desc(), l.tree(u), faultsOf(l.s))
			return
		}
		if what := l.incomplete(u.Base); what != "" {
			c.Violate(l.prop+".incomplete", "after the faults, %s, but %s of %s; faults: %s", r.Desc(), what, u.Base, faultsOf(l.s))
			return
		}
		before := l.requests()
		if !u.Uses {
			v.Args = append([]string{"compile"}, v.Args[2:]...)
			v.Uses = true
		}
		v = v.like(fmt.Sprintf("again%d", i))
		r = l.start(v, RunOpts{})
		l.s.Run()
		if !r.OK() {
			c.Violate(l.prop+".stuck", "with a complete cache, %s; the cache: %s", r.Desc(), l.tree(u))
			return
		}
		if n := l.requests(); n != before {
			c.Violate(l.prop+".again", "%s downloaded again what was complete", strings.Join(r.Args, " "))
			return
		}
		c.Hit("cache.settled")
	}
}

func (l *lab) requests() int {
	n := 0
	for _, x := range l.s.K.Net.Requests {
		n += x
	}
	return n
}

// tree describes a cache.
func (l *lab) tree(u *cacheUser) string {
	var b []string
	for _, n := range sortedKeys(l.s.K.FS.Snapshot(u.Dir)) {
		b = append(b, strings.TrimPrefix(n, u.Dir+"/"))
	}
	return strings.Join(b, " ")
}

// damage is what a download can look like.
func (l *lab) damage(key string, url string) *kern.Resource {
	c, s := l.c, l.s
	good := s.K.Net.Resp[url].Body
	r := &kern.Resource{Status: 200, Body: good, NoLength: c.P(key+"/nolength", 0.3)}
	how := c.Pick(key+"/how", "cut", "cut", "flip", "flip", "html", "empty", "404", "503", "down", "nothing", "noprotoc", "wrong", "textprotoc", "halfprotoc", "redirect", "204")
	if how == "wrong" && l.mirror[url] != "" {
		how = "noprotoc" // nobody knows which version to expect
	}
	c.Hit("download." + how)
	switch how {
	case "cut":
		r.Body = good[:c.N(key+"/at", len(good))]
	case "flip":
		r.Body = append([]byte(nil), good...)
		at := flippable(good)
		i := at[c.N(key+"/at", len(at))]
		r.Body[i] ^= 1 << c.N(key+"/bit", 8)
	case "html":
		r.Body = []byte("<html>please log in</html>\n")
	case "empty":
		r.Body = nil
	case "404":
		r.Status = 404
	case "503":
		r.Status = 503
		r.Body = []byte("later\n")
	case "204":
		r.Status = 204
		r.Body = nil
	case "down":
		r.Status = 0
	case "nothing":
		r.Body = buildZip(nil)
	case "noprotoc", "textprotoc", "halfprotoc":
		files := archiveFiles("3.11.0")
		var ents []zent
		for _, n := range sortedBytes(files) {
			mode := fs.FileMode(0644)
			b := files[n]
			if n == "bin/protoc" {
				mode = 0755
				switch how {
				case "noprotoc":
					continue
				case "textprotoc":
					b = []byte("not a program\n")
				default:
					b = b[:len(b)/2]
				}
			}
			ents = append(ents, zent{n, b, mode})
		}
		r.Body = buildZip(ents)
	case "wrong":
		r.Body = releaseZip("2.0.0", true)
	case "redirect":
		r.Status = 300
	}
	return r
}

// flippable lists the offsets of a zip file that hold file data, which is protected by a checksum.
func flippable(z []byte) []int {
	var out []int
	i := 0
	for i+30 <= len(z) && string(z[i:i+4]) == "PK\x03\x04" {
		n := int(z[i+26]) | int(z[i+27])<<8
		x := int(z[i+28]) | int(z[i+29])<<8
		j := i + 30 + n + x
		for j < len(z) && !(j+4 <= len(z) && (string(z[j:j+4]) == "PK\x07\x08" || string(z[j:j+4]) == "PK\x03\x04" || string(z[j:j+4]) == "PK\x01\x02")) {
			out = append(out, j)
			j++
		}
		if j+16 <= len(z) && string(z[j:j+4]) == "PK\x07\x08" {
			j += 16
		}
		i = j
	}
	return out
}
