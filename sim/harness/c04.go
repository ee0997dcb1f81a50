//go:build go1.25

package harness

import (
	"fmt"
	"io/fs"
	"path"
	"strings"
)

func init() {
	register("C04", "delete", 3, func(c *Ctx) {
		l0 := c.newLab()
		l0.prop = "C04"
		env := map[string]string{}
		home, xdg := Home, ""
		good := true
		switch c.Pick("home", "", "", "", "other", "slash", "space", "link", "unset", "relative") {
		case "other":
			home = "/srv/homes/x"
		case "slash":
			home = "/srv/homes/x/"
		case "space":
			home = "/srv/my homes/ü"
		case "link":
			home = "/srv/link"
		case "unset":
			home = "-"
			good = false
		case "relative":
			home = "home/x"
			good = false
		}
		env["HOME"] = home
		switch c.Pick("xdg", "", "", "", "set", "dot", "relative", "empty", "under") {
		case "set":
			xdg = "/srv/xdg"
		case "dot":
			xdg = "/srv/nothing/../xdg/./"
		case "relative":
			xdg = "xdg"
		case "empty":
			env["XDG_CACHE_HOME"] = ""
		case "under":
			xdg = "/srv/homes/x/.cache/prototool"
		}
		if xdg != "" {
			env["XDG_CACHE_HOME"] = xdg
			good = xdg != "xdg"
		}
		def := path.Join(xdg, "prototool")
		if xdg == "" {
			def = path.Join(home, ".cache/prototool")
		}
		custom := ""
		switch c.Pick("custom", "", "elsewhere", "sibling", "relative", "parent") {
		case "elsewhere":
			custom = customDir
		case "sibling":
			custom = def + "2"
		case "relative":
			custom = "pcache"
		case "parent":
			if good {
				custom = path.Dir(def)
			}
		}
		if custom != "" {
			env["PROTOTOOL_CACHE_PATH"] = custom
		}
		cwd := c.Pick("cwd", Work, Work, Work+"/a", "/srv")
		present := good && c.P("present", 0.9)
		o := RunOpts{Cwd: cwd, Env: env, Crashable: true, Faulty: true}
		setup := func(s *Sim) {
			l0.machine(s)
			f := s.K.FS
			f.MkdirAll("/srv/homes/x")
			f.MkdirAll("/srv/xdg")
			f.MkdirAll("/data/home")
			f.Symlink("/data/home", "/srv/link")
			keep := func(p string) {
				f.MkdirAll(p)
				f.Put(p+"/protobuf/3.11.0/bin/protoc", []byte("mine"), 0755)
				f.Put(p+"/keep", []byte("mine"), 0644)
			}
			keep(customDir)
			keep(cwd + "/pcache")
			keep(cwd + "/xdg/prototool")
			keep(cwd + "/home/x/.cache/prototool")
			keep("/.cache/prototool")
			keep("/prototool")
			keep("/victim")
			lonely := good && custom != "parent" && custom != def+"2" && c.P("lonely", 0.3)
			for _, x := range []string{"2", "-old", ".bak", "/../other", "/../prototoo"} {
				if good && !lonely {
					keep(path.Join(path.Dir(def), path.Base(def)+x))
				}
			}
			if lonely {
				f.MkdirAll(path.Dir(def))
				c.Hit("delete.lonely")
			}
			if good && !lonely {
				f.Put(path.Dir(def)+"/protobuf/x", []byte("mine"), 0644)
			}
			if !present {
				return
			}
			for n, b := range archiveFiles("3.9.2") {
				f.Put(def+"/Linux/x86_64/protobuf/3.9.2/"+n, b, 0644)
			}
			f.Put(def+"/Linux/x86_64/protobuf/3.9.2.lock", nil, 0600)
			if c.P("junk", 0.7) {
				f.MkdirAll(def + "/Linux/x86_64/protobuf/3.11.0.tmp/new/bin")
				f.Put(def+"/Darwin/x", []byte("x"), 0444)
				f.Put(def+"/top", []byte("x"), 0000)
			}
			if c.P("links", 0.5) {
				f.Symlink("/victim", def+"/Linux/out")
				f.Symlink("../..", def+"/Linux/up")
				f.Symlink("/victim/keep", def+"/file")
				f.Symlink("nowhere", def+"/dangling")
			}
			if c.P("self", 0.2) {
				// the cache itself is a link: the link goes
				f.Remove(def)
				f.Symlink("/victim", def)
			}
		}
		judge := func(s *Sim, r *Run, before map[string]string) {
			real := path.Join(s.K.FS.Canon("/", path.Dir(path.Clean("/"+def))), path.Base(def))
			if !good {
				real = "/nowhere"
			}
			for _, m := range s.Muts {
				if !under(m.Path, real) {
					c.Violate("C04.outside", "with %v in %s: %s of %s; faults: %s", env, cwd, m.Kind, m.Path, faultsOf(s))
					return
				}
			}
			after := s.K.FS.Snapshot("/")
			for _, d := range Diff(before, after) {
				p := d[strings.IndexByte(d, ' ')+1:]
				if !under(p, real) || !strings.HasPrefix(d, "removed ") {
					c.Violate("C04.outside", "with %v in %s: %s; faults: %s", env, cwd, d, faultsOf(s))
					return
				}
			}
			if r.OK() {
				for p := range after {
					if under(p, real) {
						c.Violate("C04.left", "with %v, %s, but %s is still there; faults: %s", env, r.Desc(), p, faultsOf(s))
						return
					}
				}
				c.Hit("delete.ok")
			}
		}
		c.Sample("cache delete with %v in %s", env, cwd)
		cfg := Quiet(c.Swarm("a"))
		cfg.LatencyP = 0
		a := c.Sim("a", cfg)
		setup(a)
		before := a.K.FS.Snapshot("/")
		r := a.Start("delete", o, "cache", "delete")
		a.Run()
		judge(a, r, before)
		if good && !r.OK() {
			c.Violate("C04.failed", "with %v: %s", env, r.Desc())
		}
		if c.Failed() {
			return
		}
		var t map[string]int
		if c.P("kill", 0.4) {
			t = c.aimCrash(a, nil)
		} else {
			t = c.aim(a, 1+c.N("many", 3), notStdout)
		}
		if t == nil {
			return
		}
		b := c.Twin("b", a)
		setup(b)
		b.K.Target = t
		before = b.K.FS.Snapshot("/")
		r = b.Start("delete", o, "cache", "delete")
		b.Run()
		judge(b, r, before)
		if c.Failed() || !good {
			return
		}
		before = b.K.FS.Snapshot("/")
		b.Muts = nil
		r = b.Start("again", RunOpts{Cwd: cwd, Env: env}, "cache", "delete")
		b.Run()
		judge(b, r, before)
		if !r.OK() {
			c.Violate("C04.failed", "after faults (%s), with %v: %s", faultsOf(b), env, r.Desc())
		}
	})
	register("C04", "extract", 3, func(c *Ctx) {
		l0 := c.newLab()
		l0.prop = "C04"
		p := l0.party(1+c.N("users", 3), 0.8, 0.5)
		cfg := c.disturb("a", true)
		if c.P("calm", 0.4) {
			cfg = Quiet(brisk(c, "a"))
		}
		l := l0.machine(c.Sim("a", cfg))
		f := l.s.K.FS
		u0 := p.users[0]
		for _, d := range []string{"/victim", "/etc", Home + "/docs", u0.Dir + "/protobuf/3.8.0/bin", u0.Base + "2", u0.Base + "/bin", u0.Base + ".old"} {
			f.Put(d+"/keep", []byte("mine"), 0644)
		}
		f.Put(u0.Dir+"/protobuf/3.8.0/bin/protoc", []byte("mine"), 0755)
		if c.P("linkbase", 0.15) {
			f.Remove(u0.Base)
			f.Symlink("/victim", u0.Base)
		} else if c.P("linkin", 0.2) {
			f.Remove(u0.Base)
			f.MkdirAll(u0.Base)
			f.Symlink("/victim", u0.Base+"/include")
			f.Symlink("/victim", u0.Base+"/bin")
		}
		if c.P("linktmp", 0.15) {
			f.Symlink("/victim", u0.Base+".tmp")
		} else if c.P("intmp", 0.2) {
			f.MkdirAll(u0.Base + ".tmp")
			f.Symlink("/victim", u0.Base+".tmp/new")
			f.Symlink("/victim", u0.Base+".tmp/old")
		}
		for _, url := range append(urlsOf(l.s.K), fileURL, file2URL) {
			z := c.hostileZip(url, l.mirror[url])
			if src := strings.TrimPrefix(url, "file://"); src != url {
				f.Put(src, z, 0644)
			} else {
				l.s.K.Net.Resp[url].Body = z
			}
		}
		c.Sample("%s", p)
		before := f.Snapshot("/")
		l.run(p, RunOpts{Crashable: true, Faulty: true})
		ok := func(p0 string) bool {
			if under(p0, "/tmp") {
				return true
			}
			for _, u := range p.users {
				if under(p0, u.Base) || p0 == u.Base+".lock" || under(p0, u.Base+".tmp") {
					return true
				}
			}
			return false
		}
		for _, m := range l.s.Muts {
			parent := false
			for _, u := range p.users {
				parent = parent || m.Kind == "mkdir" && under(u.Base, m.Path)
			}
			if m.P.Prog == "prototool" && !ok(m.Path) && !parent {
				c.Violate("C04.outside", "%s of %s by %s", m.Kind, m.Path, m.P.Label)
				return
			}
		}
		for _, d := range Diff(before, f.Snapshot("/")) {
			i := strings.IndexByte(d, ' ')
			p0 := d[i+1:]
			parent := false
			for _, u := range p.users {
				parent = parent || d[:i] == "added" && under(u.Base, p0)
			}
			if !ok(p0) && !parent {
				c.Violate("C04.outside", "after the commands: %s", d)
				return
			}
		}
		for _, r := range l.s.Runs {
			if r.OK() {
				c.Hit("extract.ok")
			} else {
				c.Hit("extract.failed")
			}
		}
	})
}

// hostileZip is a release archive with entries nobody asked for.
func (c *Ctx) hostileZip(key, version string) []byte {
	if version == "" {
		version = DefaultVer
		for _, v := range []string{"3.10.1", "3.9.2"} {
			if strings.Contains(key, v) {
				version = v
			}
		}
	}
	var ents []zent
	files := archiveFiles(version)
	for _, n := range sortedBytes(files) {
		m := fs.FileMode(0644)
		if n == "bin/protoc" {
			m = 0755
		}
		ents = append(ents, zent{n, files[n], m})
	}
	names := []string{
		"../evil", "../../evil", "../../../../../../../../../../../../../../home/u/docs/evil", "/victim/evil", "/etc/evil", "a/../../evil",
		"a/b/../../../../evil", "..", ".", "../", "./ok", "include/../../evil", "../new2/evil", "../newer", "../old/evil", "../" + version + ".lock",
		"../../" + version + ".lock", "../../" + version + "2/evil", "../../3.8.0/bin/protoc", "../../" + version + "/bin/protoc", "..\\evil", "../\x00evil", strings.Repeat("x", 300),
		strings.Repeat("d/", 60) + "deep", "bin/protoc/evil", "bin", "include", "include/google", "bin/protoc", "~/evil", "$HOME/evil", "C:\\evil",
		" ../evil", ".../evil", "..../evil", "bin//protoc", "//victim/evil", "\xff\xfe", "a/./../../evil", "/", "",
	}
	for i := 0; i < c.N(key+"/bad", 4); i++ {
		n := names[c.N(fmt.Sprintf("%s/name%d", key, i), len(names))]
		e := zent{n, []byte("evil\n"), 0644}
		switch c.N(fmt.Sprintf("%s/kind%d", key, i), 6) {
		case 0:
			e.mode = fs.ModeDir | 0755
		case 1:
			e.mode = fs.ModeSymlink | 0777
			e.data = []byte("/victim")
		case 2:
			e.mode = 04755
		case 3:
			e.mode = 0
		}
		at := c.N(fmt.Sprintf("%s/at%d", key, i), len(ents)+1)
		ents = append(ents[:at:at], append([]zent{e}, ents[at:]...)...)
	}
	if c.P(key+"/link", 0.2) {
		// a link, and then a file behind it
		ents = append([]zent{{"include/google", []byte("/victim"), fs.ModeSymlink | 0777}, {"bin", []byte("/victim"), fs.ModeSymlink | 0777}, {"lib", []byte("/victim"), fs.ModeSymlink | 0777}, {"lib/evil", []byte("evil"), 0644}}, ents...)
	}
	return buildZip(ents)
}
