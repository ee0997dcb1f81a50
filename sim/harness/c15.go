//go:build go1.25

package harness

import (
	"fmt"
	"path"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/kern"
)

// maker is one create or config init command with its targets.
type maker struct {
	name    string
	args    []string
	targets []string // absolute
	want    map[string]string
}

// birth is a case about files that come into existence.
type birth struct {
	c      *Ctx
	cfg    string
	init   bool
	makers []*maker
	dirs   []string
	pre    map[string]string // state by target: absent, empty, content, dir, link, linkempty, dangling
	perm   map[string]int
	all    []string
	cwd    string
}

func (b *birth) hasContent(t string) bool {
	switch b.pre[t] {
	case "absent":
		return false
	case "empty", "linkempty":
		return b.init // an existing configuration file is never touched, even if it is empty
	}
	return true
}

const userContent = "// somebody's precious work\nsyntax = \"proto3\";\n"

func (b *birth) put(s *Sim) *Sim {
	s.World()
	f := s.K.FS
	if b.cfg != "" {
		s.Write(Work, map[string]string{"prototool.yaml": b.cfg})
	}
	for _, d := range b.dirs {
		f.MkdirAll(d)
	}
	f.MkdirAll("/work/else")
	for i, t := range b.all {
		real := fmt.Sprintf("/work/else/real%d", i)
		mode := toMode(b.perm[t])
		switch b.pre[t] {
		case "empty":
			f.Put(t, nil, mode)
		case "content":
			f.Put(t, []byte(userContent), mode)
		case "space":
			f.Put(t, []byte("\n"), mode)
		case "dir":
			f.MkdirAll(t)
		case "link":
			f.Put(real, []byte(userContent), mode)
			f.Symlink(real, t)
		case "linkempty":
			f.Put(real, nil, mode)
			f.Symlink(real, t)
		case "dangling":
			f.Symlink(real, t)
		}
	}
	return s
}

// state describes what is at a path, without following a link.
func stateAt(s *Sim, p string) string {
	n := s.K.FS.Lookup(p)
	switch {
	case n == nil:
		return "absent"
	case n.IsDir():
		return "directory"
	case n.Target != "":
		r := s.K.FS.LookupFollow(p)
		if r == nil {
			return "link to nothing (" + n.Target + ")"
		}
		return "link to " + n.Target + ": " + string(r.Data)
	}
	return "file: " + string(n.Data)
}

func (c *Ctx) birth(nmax int) *birth {
	b := &birth{c: c, pre: map[string]string{}, perm: map[string]int{}, cwd: Work}
	b.init = c.P("init", 0.4)
	k := 1
	if nmax > 1 {
		k = 2 + c.N("procs", nmax-1)
	}
	if b.init {
		d := c.Pick("dir", "", "conf", "conf/deep", Work+"/conf")
		t := path.Join(Work, d, "prototool.yaml")
		if strings.HasPrefix(d, "/") {
			t = d + "/prototool.yaml"
		}
		b.all = []string{t}
		if c.P("direxists", 0.6) {
			b.dirs = append(b.dirs, path.Dir(t))
		}
		for i := 0; i < k; i++ {
			m := &maker{name: fmt.Sprintf("init%d", i), args: []string{"config", "init"}, targets: b.all}
			if d != "" {
				m.args = append(m.args, d)
			}
			if x := c.Pick(fmt.Sprintf("initflag%d", i), "", "--uncomment", "--document"); x != "" {
				m.args = append(m.args, x)
			}
			b.makers = append(b.makers, m)
		}
	} else {
		b.cfg = c.Pick("cfg", "", "lint:\n  group: uber2\n", "create:\n  packages:\n    - directory: pkg\n      name: some.base\n", "lint:\n  file_header:\n    content: Copyright\n", "lint:\n  group: uber2\n  java_package_prefix: org\n")
		paths := []string{"one.proto", "pkg/two.proto", "pkg/v1/three.proto", "nodir/four.proto"}
		b.dirs = []string{Work + "/pkg/v1"}
		n := 1 + c.N("paths", 3)
		var chosen []string
		for i := 0; i < n; i++ {
			j := c.N(fmt.Sprintf("path%d", i), len(paths))
			chosen = append(chosen, paths[j])
			paths = append(paths[:j:j], paths[j+1:]...)
		}
		for _, p := range chosen {
			b.all = append(b.all, Work+"/"+p)
		}
		for i := 0; i < k; i++ {
			m := &maker{name: fmt.Sprintf("create%d", i), args: []string{"create"}}
			if k > 1 || c.P("pkgflag", 0.3) {
				m.args = append(m.args, fmt.Sprintf("--package=made.by.p%d", i))
			}
			for j, p := range chosen {
				if k > 1 && j > 0 && c.P(fmt.Sprintf("skip%d/%d", i, j), 0.3) {
					continue
				}
				m.targets = append(m.targets, Work+"/"+p)
				switch c.N(fmt.Sprintf("spell%d/%d", i, j), 4) {
				case 2:
					p = "./" + p
				case 3:
					p = Work + "/" + p
				}
				m.args = append(m.args, p)
			}
			b.makers = append(b.makers, m)
		}
	}
	for _, t := range b.all {
		st := []string{"absent", "absent", "empty", "content", "content", "link", "dangling", "dir", "linkempty", "space"}
		b.pre[t] = st[c.N("pre"+t, len(st))]
		if b.pre[t] != "absent" && !(under(t, Work+"/nodir")) {
			b.dirs = append(b.dirs, path.Dir(t))
		}
		if under(t, Work+"/nodir") {
			b.pre[t] = "absent"
		}
		b.perm[t] = []int{0644, 0600, 0444, 0640}[c.N("perm"+t, 4)]
	}
	var d []string
	for _, m := range b.makers {
		d = append(d, "prototool "+strings.Join(m.args, " "))
	}
	c.Sample("%s; %v", strings.Join(d, " | "), b.pre)
	return b
}

// learn runs each command alone where nothing is in its way.
func (b *birth) learn() {
	for _, m := range b.makers {
		s := b.c.Sim("learn/"+m.name, Plain())
		s.World()
		if b.cfg != "" {
			s.Write(Work, map[string]string{"prototool.yaml": b.cfg})
		}
		for _, t := range m.targets {
			s.K.FS.MkdirAll(path.Dir(t))
		}
		r := s.Do("learn", RunOpts{}, m.args...)
		if !r.OK() {
			b.c.Violate("C15.setup", "%s with nothing in its way", r.Desc())
		}
		m.want = map[string]string{}
		for _, t := range m.targets {
			x, _ := s.K.FS.Get(t)
			m.want[t] = string(x)
			if len(x) == 0 {
				b.c.Violate("C15.exit", "%s, but %s is empty", r.Desc(), t)
			}
		}
	}
}

// complete tells whether text is the complete result of one of the commands for the target, and of which.
func (b *birth) complete(t, text string) []*maker {
	var out []*maker
	for _, m := range b.makers {
		if w, ok := m.want[t]; ok && w == text {
			out = append(out, m)
		}
	}
	return out
}

// watch checks every state of the targets.
func (b *birth) watch(s *Sim, foreign map[string]string) {
	before := map[string]string{}
	for _, t := range b.all {
		before[t] = stateAt(s, t)
	}
	last := map[string]string{}
	for t, x := range before {
		last[t] = x
	}
	seen := 0
	s.K.OnStep = func() {
		if len(s.Muts) == seen && len(foreign) == 0 {
			return
		}
		seen = len(s.Muts)
		for _, t := range b.all {
			now := stateAt(s, t)
			if now == last[t] {
				continue
			}
			old := last[t]
			last[t] = now
			if foreign[t] != "" && now == "file: "+foreign[t] && (old == "absent") {
				continue
			}
			bad := ""
			switch {
			case b.hasContent(t):
				bad = "it existed before"
			case strings.HasPrefix(old, "file: ") && len(old) > 6:
				if s.K.Fired["link.EPERM"] == 0 {
					bad = "it had content"
				}
			case s.K.Fired["link.EPERM"] > 0:
				// without hard links it cannot appear in one step
			case now == "absent" || now == "file: " && old == "absent":
				bad = "nobody may see it incomplete"
			default:
				text := now[strings.Index(now, ": ")+2:]
				if len(b.complete(t, text)) == 0 {
					bad = "this is not a complete result"
				}
			}
			if bad != "" {
				s.K.Violate("changed|%s was %q and became %q: %s; faults: %s", t, clip(old, 200), clip(now, 200), bad, faultsOf(s))
			}
		}
	}
}

// judge looks at the end of it.
func (b *birth) judge(s *Sim, runs []*Run, foreign map[string]string) {
	c := b.c
	for _, t := range b.all {
		var ok []*Run
		var by []string
		for i, r := range runs {
			if r.OK() && contains(b.makers[i].targets, t) {
				ok = append(ok, r)
				by = append(by, r.Desc())
			}
		}
		now := stateAt(s, t)
		text := ""
		if n := s.K.FS.LookupFollow(t); n != nil && !n.IsDir() {
			text = string(n.Data)
		}
		if len(ok) > 1 {
			c.Violate("C15.twice", "both succeeded in making %s: %s", t, strings.Join(by, " | "))
			continue
		}
		if len(ok) == 1 && b.hasContent(t) {
			c.Violate("C15.exit", "%s, but %s existed before", ok[0].Desc(), t)
			continue
		}
		if len(ok) == 1 {
			m := b.makers[indexRun(runs, ok[0])]
			if text != m.want[t] {
				c.Violate("C15.exit", "%s, but %s is %q", ok[0].Desc(), t, clip(now, 200))
			}
			continue
		}
		if b.hasContent(t) || foreign[t] != "" && text == foreign[t] {
			continue
		}
		if s.K.Fired["link.EPERM"] > 0 && s.K.Crashes > 0 {
			continue
		}
		if text != "" && len(b.complete(t, text)) == 0 {
			c.Violate("C15.partial", "afterwards %s is %q; faults: %s", t, clip(now, 200), faultsOf(s))
		}
	}
}

func indexRun(runs []*Run, r *Run) int {
	for i := range runs {
		if runs[i] == r {
			return i
		}
	}
	return -1
}

// again runs the commands once more, one after the other, when everything works.
func (b *birth) again(s *Sim, first []*Run) {
	c := b.c
	s.K.Cfg.Faults, s.K.Cfg.CrashP, s.K.Cfg.Benign = nil, 0, true
	s.K.Target = nil
	s.K.OnStep = nil
	s.K.FS.Cap = map[string]int64{}
	for i, m := range b.makers {
		state := map[string]string{}
		blocked := false
		for _, t := range m.targets {
			state[t] = stateAt(s, t)
			n := s.K.FS.LookupFollow(t)
			if s.K.FS.Lookup(t) != nil && (n == nil || n.IsDir() || len(n.Data) > 0 || b.init) {
				blocked = true
			}
			if s.K.FS.Lookup(path.Dir(t)) == nil && !b.init {
				blocked = true
			}
		}
		r := s.Do(fmt.Sprintf("again%d", i), RunOpts{}, m.args...)
		if blocked {
			if r.OK() {
				c.Violate("C15.exit", "a second try: %s, but there was something in its way: %v", r.Desc(), state)
			}
			for _, t := range m.targets {
				if x := stateAt(s, t); strings.HasPrefix(state[t], "file: ") && len(state[t]) > 6 && x != state[t] {
					c.Violate("C15.changed", "a second try: %s: %s was %q and became %q", r.Desc(), t, clip(state[t], 200), clip(x, 200))
				}
			}
			continue
		}
		if !r.OK() {
			c.Violate("C15.retry", "first: %s; but a second try does not work: %s", first[i].Desc(), r.Desc())
		}
	}
}

func init() {
	register("C15", "faults", 3, func(c *Ctx) {
		b := c.birth(1)
		b.learn()
		o := RunOpts{Faulty: true, Crashable: true}
		var s *Sim
		mode := c.N("mode", 4)
		if mode <= 1 {
			a := b.put(c.Sim("a", Quiet(c.Swarm("a"))))
			b.watch(a, nil)
			r := a.Do("main", o, b.makers[0].args...)
			b.judge(a, []*Run{r}, nil)
			var t map[string]int
			if mode == 0 {
				t = c.aim(a, 1+c.N("two", 2)*c.N("two2", 2), nil)
			} else {
				t = c.aimCrash(a, nil)
			}
			if t == nil {
				return
			}
			s = b.put(c.Twin("b", a))
			s.K.Target = t
		} else if mode == 2 {
			s = b.put(c.Sim("b", c.disturb("b", c.P("crashes", 0.5))))
		} else {
			s = b.put(c.Sim("b", Quiet(c.Swarm("b"))))
			s.K.FS.Mounts = []string{"/work"}
			for _, e := range s.K.FS.Tree("/work") {
				e.Node.Dev = "/work"
			}
			s.K.FS.Lookup("/work").Dev = "/work"
			s.K.FS.Cap["/work"] = s.K.FS.Used("/work") + int64(c.N("room", 1200))
		}
		b.watch(s, nil)
		r := s.Start("main", o, b.makers[0].args...)
		s.Run()
		b.judge(s, []*Run{r}, nil)
		if !c.Failed() {
			b.again(s, []*Run{r})
		}
	})
	register("C15", "power", 1, func(c *Ctx) {
		b := c.birth(1)
		b.learn()
		a := b.put(c.Sim("a", Quiet(c.Swarm("a"))))
		a.Do("main", RunOpts{}, b.makers[0].args...)
		s := b.put(c.Twin("b", a))
		before := map[string]string{}
		for _, t := range b.all {
			before[t] = stateAt(s, t)
		}
		off := c.blackout("power", a, s)
		r := s.Start("main", RunOpts{}, b.makers[0].args...)
		s.Run()
		off()
		for _, t := range b.all {
			if x := stateAt(s, t); x != before[t] && x != stateAt(a, t) {
				c.Violate("C15.power", "the power failed while %s ran (%s); %s was %q, should have become %q and is %q", strings.Join(r.Args, " "), r.P.Desc(), t, clip(before[t], 200), clip(stateAt(a, t), 200), clip(x, 200))
			}
		}
		if !c.Failed() {
			b.again(s, []*Run{r})
		}
	})
	register("C15", "race", 3, func(c *Ctx) {
		b := c.birth(4)
		b.learn()
		cfg := Quiet(c.Swarm("a"))
		mode := c.N("mode", 3)
		if mode == 1 {
			cfg = c.disturb("a", c.P("crashes", 0.5))
		}
		s := b.put(c.Sim("a", cfg))
		foreign := map[string]string{}
		over := false
		if c.P("foreign", 0.4) {
			for _, t := range b.all {
				if b.pre[t] != "absent" || !c.P("foreign"+t, 0.6) {
					continue
				}
				t := t
				step := c.N("foreignstep"+t, 60)
				s.K.When(func() bool { return s.K.Step >= step }, func() {
					if !over && s.K.FS.Lookup(t) == nil && s.K.FS.Lookup(path.Dir(t)) != nil {
						s.C.Hit("c15.appeared")
						foreign[t] = userContent
						s.K.FS.Put(t, []byte(userContent), 0644)
					}
				})
			}
		}
		b.watch(s, foreign)
		var runs []*Run
		kill := -1
		if mode == 2 {
			kill = c.N("kill", len(b.makers))
		}
		for i, m := range b.makers {
			runs = append(runs, s.Start(m.name, RunOpts{Faulty: mode == 1, Crashable: mode == 1}, m.args...))
			if i == kill {
				r := runs[i]
				at := 1 + c.N("killat", 40)
				s.K.When(func() bool { return s.K.Step >= at }, func() { s.K.Kill(r.P, syscall.SIGKILL) })
			}
		}
		s.Run()
		over = true
		c.Hit("c15.raced")
		b.judge(s, runs, foreign)
		// without faults, somebody wins
		if mode == 0 && len(foreign) == 0 && len(b.all) == 1 && !under(b.all[0], Work+"/nodir") && !b.hasContent(b.all[0]) {
			n := 0
			for _, r := range runs {
				if r.OK() {
					n++
				}
			}
			if n == 0 {
				var d []string
				for _, r := range runs {
					d = append(d, r.Desc())
				}
				c.Violate("C15.nobody", "%s could be made, but nobody succeeded: %s", b.all[0], strings.Join(d, " | "))
			}
		}
		if !c.Failed() {
			b.again(s, runs)
		}
	})
	_ = time.Second
	_ = kern.Hash64
}
