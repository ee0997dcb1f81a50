//go:build go1.25

package harness

import (
	"path"
	"sort"
	"strings"
)

func init() {
	register("C25", "part", 1, func(c *Ctx) {
		p := c.Proj("p", ProjOpts{Errors: []float64{0, 0, 0.15}[c.N("errors", 3)], Unformatted: 0.4, LintFail: []float64{0, 0.3}[c.N("lintfail", 2)], Excludes: true, MaxDirs: 6, MaxFiles: 3, Plugins: 3, GoPlugin: true, Silent: true, Rich: c.P("rich", 0.6)})
		cmd := [][]string{{"files"}, {"compile"}, {"lint"}, {"generate"}, {"format", "-l"}, {"format", "-w"}, {"format"}, {"compile", "--dry-run"}, {"all", "--disable-format"}, {"all"}}[c.N("cmd", 10)]
		dirs := p.Args()
		sub := dirs[c.N("sub", len(dirs))]
		dir := path.Join(p.Root, sub)
		warm := c.WarmCache()
		type part struct {
			code   int
			lines  []string
			cmds   map[string]string // protoc command: its first file
			change map[string]string
			bad    bool
			silent bool // protoc failed without saying why: only that is printed
		}
		do := func(name, arg string) (part, *Run) {
			s := c.Sim(name, Quiet(c.Swarm(name)))
			s.Warm(warm)
			p.Put(s)
			before := userTree(s)
			args := append([]string(nil), cmd...)
			if arg != "." || c.P(name+"/dot", 0.5) {
				args = append(args, arg)
			}
			r := s.Do("main", RunOpts{Cwd: p.Root}, args...)
			x := part{code: r.Code(), cmds: map[string]string{}, change: map[string]string{}}
			for _, pr := range s.ProtocRuns(r) {
				f := ""
				if len(pr.Files) > 0 {
					f = pr.Files[0]
				}
				x.cmds[tempName.ReplaceAllString(strings.Join(pr.P.Argv, " "), "/tmp/X")] = f
				x.bad = x.bad || protocFailed(pr.P)
				x.silent = x.silent || protocFailed(pr.P) && len(significant(pr.Stderr)) == 0
			}
			after := userTree(s)
			for f, v := range after {
				if before[f] != v {
					x.change[f] = v
				}
			}
			for f := range before {
				if _, ok := after[f]; !ok {
					c.Violate("C25.part", "%s removed %s", r.Desc(), f)
				}
			}
			for _, l := range strings.Split(r.Stdout(), "\n") {
				if l != "" {
					x.lines = append(x.lines, l)
				}
			}
			return x, r
		}
		whole, rw := do("whole", ".")
		dw := rw.Desc()
		c.Sample("prototool %s %s; %s", strings.Join(cmd, " "), sub, p.Describe())
		some, rs := do("part", c.Pick("as", sub, dir, "./"+sub+"/"))
		ds := rs.Desc()
		bad := func(f string, a ...any) { c.Violate("C25.part", f+"; %s; %s", append(a, dw, ds)...) }
		fails := whole.bad || some.bad
		// the commands that are run
		for k, f := range whole.cmds {
			if _, ok := some.cmds[k]; !ok && under(f, dir) && !fails {
				bad("for %s, protoc is not run like for the whole: %s", sub, clip(k, 300))
				return
			}
		}
		for k, f := range some.cmds {
			if !under(f, dir) {
				bad("for %s, protoc is run on something else: %s", sub, clip(k, 300))
				return
			}
			if _, ok := whole.cmds[k]; !ok && !fails {
				bad("for the whole, protoc is not run like for %s: %s", sub, clip(k, 300))
				return
			}
		}
		// the outcome
		if whole.code == 0 && some.code != 0 {
			bad("%s fails, the whole does not", sub)
			return
		}
		if some.code == 0 && whole.code == 0 || !fails && cmd[0] != "all" {
			for f, v := range some.change {
				if cmd[0] == "all" && len(cmd) == 1 && !strings.HasSuffix(f, ".proto") {
					continue // what is generated may depend on the layout of the files that are imported
				}
				if whole.change[f] != v {
					bad("%s is different for %s", f, sub)
					return
				}
			}
			for f, v := range whole.change {
				if under(f, dir) && strings.HasSuffix(f, ".proto") && some.change[f] != v {
					bad("%s is different for the whole", f)
					return
				}
			}
		}
		if cmd[0] == "format" && len(cmd) == 1 || fails && cmd[0] != "compile" || whole.silent || some.silent {
			c.Hit("c25.lines_skipped")
			return
		}
		in := func(l string) (string, bool) {
			f, _, _ := strings.Cut(l, ":")
			f = path.Join(p.Root, strings.TrimSpace(f))
			return f, under(f, dir) && p.Files[strings.TrimPrefix(f, p.Root+"/")] != ""
		}
		has := map[string]bool{}
		for _, l := range whole.lines {
			has[l] = true
		}
		if contains(cmd, "--dry-run") {
			for _, l := range some.lines {
				if !has[l] {
					bad("%q is announced for %s only", l, sub)
					return
				}
			}
			return
		}
		for _, l := range some.lines {
			f, ok := in(l)
			if f, ours := p.Files[strings.TrimPrefix(f, p.Root+"/")]; ours && f != "" && !ok && !fails {
				bad("%q is printed for %s", l, sub)
				return
			}
			if ok && !has[l] {
				bad("%q (%s) is printed for %s only", l, f, sub)
				return
			}
		}
		some2 := map[string]bool{}
		for _, l := range some.lines {
			some2[l] = true
		}
		n := 0
		for _, l := range whole.lines {
			if f, ok := in(l); ok {
				n++
				if !some2[l] {
					bad("%q (%s) is printed for the whole only", l, f)
					return
				}
			}
		}
		if n > 0 {
			c.Hit("c25.lines")
			if some.code == 0 && cmd[0] != "files" {
				bad("%s succeeds, although the whole reports something for it", sub)
			}
		}
		sort.Strings(some.lines)
		c.Hit("c25.compared")
	})
}
