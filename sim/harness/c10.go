//go:build go1.25

package harness

import (
	"fmt"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif.local/sim/kern"
)

// stroll is a command whose walk is watched.
type stroll struct {
	g       *Rig
	root    string   // the governing directory
	want    []string // absolute paths of the files it has to operate on
	refused bool     // several configurations govern the tree
	timeout time.Duration
}

var walkers = []string{"files", "files", "files-arg", "files-arg", "files-file", "compile", "compile-arg", "compile-file", "lint", "format-l", "generate", "all", "ds", "break-git", "break-git", "inspect", "format-w", "lint-ignores"}

func (c *Ctx) stroll(only []string) *stroll {
	g := c.Rig(LoadOpts{Only: only, Proj: &ProjOpts{Errors: []float64{0, 0, 0.2}[c.N("errs", 3)], Unformatted: 0.2, Excludes: true, MaxDirs: 8, MaxFiles: 3, Rich: c.P("rich", 0.6), NoShared: true}})
	l, p := g.L, g.L.P
	w := &stroll{g: g, root: Work}
	odd := func(f, pkg string, ex bool) {
		p.Files[f] = "syntax = \"proto3\";\n\npackage " + pkg + ";\n\nmessage Odd {\n  string id = 1;\n}\n"
		if ex {
			p.Excluded[f] = true
		}
	}
	if l.Name != "break-git" && l.Name != "break-ds" {
		if c.P("hidden", 0.2) {
			odd(".hidden/h.proto", "hidden", false)
		}
		if c.P("weird", 0.2) {
			odd("weird.proto/in.proto", "weird", false)
		}
		for _, d := range []string{"_priv", "..up", "node_modules", "testdata", "x y"} {
			if c.P("odd/"+d, 0.06) && (d != "x y" || l.Name == "files" && !contains(l.Args, "--debug")) {
				odd(d+"/p.proto", "odd."+strings.Trim(strings.ReplaceAll(d, " ", "_"), "._"), false)
				c.Hit("odd." + d)
			}
		}
		if c.P("dot", 0.1) {
			odd("dots/.dot.proto", "dots", false)
			odd("dots/..proto", "dots", false)
		}
		if c.P("link", 0.2) {
			// files are selected through links, directories are not
			odd("links/link.proto", "links", false)
			g.More = func(s *Sim) {
				f := s.K.FS
				f.Remove(Work + "/links/link.proto")
				f.Put("/srv/shared/real.txt", []byte(p.Files["links/link.proto"]), 0644)
				f.Put("/srv/shared/in.proto", []byte(p.Files["links/link.proto"]), 0644)
				f.Symlink("/srv/shared/real.txt", Work+"/links/link.proto")
				f.Symlink("/srv/shared", Work+"/links/dir")
				f.Symlink("../links", Work+"/links/cycle")
			}
			c.Hit("odd.link")
		}
		if c.P("upper", 0.2) {
			p.Extra["Upper.PROTO"] = "not ours\n"
			p.Extra["x.proto.txt"] = "not ours\n"
			p.Extra["proto"] = "not ours\n"
		}
		if n := c.N("clutter", 4); n > 0 {
			for i := 0; i < n*12; i++ {
				p.Extra[fmt.Sprintf("%s/clutter/d%d/f%02d.js", []string{"node", "zz", "aa"}[i%3], i%5, i)] = "x\n"
			}
		}
		if c.P("exclfile", 0.3) && p.CfgName == "prototool.yaml" && !contains(l.Args, "--config-data") {
			// one file, and things that do not exist but are the beginning of a name
			fs := p.Selected(".")
			f := fs[c.N("exclwhich", len(fs))]
			if l.File != f && len(fs) > 1 {
				x := "  - " + f + "\n  - nothere/\n"
				was := map[string]bool{}
				for _, o := range fs {
					for d := o; d != "."; d = path.Dir(d) {
						was[d] = true
					}
				}
				for _, o := range fs {
					if cut := strings.TrimSuffix(o[:len(o)-1], "/"); !was[cut] && !contains([]string{f}, o) && len(path.Base(cut)) > 0 {
						x += "  - " + cut + "\n"
					}
					if d := path.Dir(o); d != "." && len(path.Base(d)) > 1 && !was[d[:len(d)-1]] {
						x += "  - " + d[:len(d)-1] + "\n"
					}
					break
				}
				p.Excluded[f] = true
				p.exclude(x)
			}
			// imports of what is excluded still work
		}
		if c.P("nested", 0.12) && !contains(l.Args, "--config-data") && (strings.HasPrefix(l.Name, "files") || c.P("nestedany", 0.5)) {
			dirs := Dirs(p.Selected("."))
			d := dirs[c.N("nestedat", len(dirs))]
			if d != "." {
				p.Extra[d+"/prototool.yaml"] = "protoc:\n  version: 3.11.0\n"
				at := l.Sub
				if under("/"+at, "/"+d) {
					w.root = Work + "/" + d
					for f := range p.Files {
						if under("/"+f, "/"+d) {
							delete(p.Excluded, f)
						}
					}
				} else {
					for _, f := range p.Selected(".") {
						w.refused = w.refused || !under("/"+f, "/"+d)
					}
				}
			}
		}
	}
	for _, f := range p.Selected(l.Sub) {
		if under(Work+"/"+f, w.root) {
			w.want = append(w.want, Work+"/"+f)
		}
	}
	sort.Strings(w.want)
	return w
}

// judge looks at the walk of a finished command.
func (w *stroll) judge(s *Sim, r *Run, clean bool) {
	c, l := w.g.C, w.g.L
	if !r.P.Exited() {
		return
	}
	timedOut := strings.Contains(r.Stdout(), "timed out after")
	if r.OK() && timedOut {
		c.Violate("C10.partial", "the walk timed out, but %s; faults: %s", r.Desc(), faultsOf(s))
	}
	if w.refused && r.OK() {
		c.Violate("C10.partial", "a directory below has a configuration of its own, but %s; faults: %s", r.Desc(), faultsOf(s))
		return
	}
	// what it operated on
	if strings.HasPrefix(l.Name, "files") {
		if r.OK() {
			cwd := l.Cwd
			if cwd == "" {
				cwd = Work
			}
			var want []string
			for _, f := range w.want {
				rel, _ := filepath.Rel(cwd, f)
				want = append(want, rel)
			}
			sort.Strings(want)
			got := strings.Split(strings.TrimSuffix(r.Stdout(), "\n"), "\n")
			if r.Stdout() == "" {
				got = nil
			}
			if contains(l.Args, "--debug") {
				got = nil
				for _, x := range strings.Split(r.Stdout(), "\n") {
					if strings.HasSuffix(x, ".proto") && !strings.ContainsAny(x, " \t") {
						got = append(got, x)
					}
				}
			}
			if !sameStrings(want, got) {
				c.Violate("C10.partial", "%s listed %s instead of %s; faults: %s", strings.Join(r.Args, " "), got, want, faultsOf(s))
				return
			}
			c.Hit("c10.listed")
		} else if clean && !timedOut && !w.refused {
			c.Violate("C10.failed", "%s for no reason", r.Desc())
		}
	} else {
		var first []*ProtocRun
		seen := map[string]bool{}
		for _, pr := range s.ProtocRuns(r) {
			k := strings.Join(pr.Files, " ")
			if name, _, _ := outArg(pr.Args); name != "" || strings.HasPrefix(pr.Files[0], "/tmp/") {
				continue
			}
			if seen[k] {
				continue
			}
			seen[k] = true
			first = append(first, pr)
		}
		if len(first) > 0 && (r.OK() || clean) {
			var rel []string
			for _, f := range w.want {
				rel = append(rel, strings.TrimPrefix(f, Work+"/"))
			}
			checkCoverage(c, "C10.partial", r, first, Work, rel)
			c.Hit("c10.compiled")
		}
		if r.OK() && len(s.ProtocRuns(r)) == 0 && len(w.want) > 0 {
			c.Violate("C10.partial", "%s without looking at any file; faults: %s", r.Desc(), faultsOf(s))
		}
	}
	if w.timeout < 0 {
		return
	}
	w.times(s, r, timedOut)
}

// times checks when the walk was given up.
func (w *stroll) times(s *Sim, r *Run, timedOut bool) {
	c := w.g.C
	walking := map[string]bool{"lstat": true, "stat": true, "open": true, "readdir": true, "close": true, "read": true, "fstat": true, "readlink": true}
	type walk struct {
		start, low, high time.Duration
		then             string // what ended it
	}
	var ws []walk
	var prev time.Duration
	cur := -1
	open, deeper := false, false
	first := true
	for _, e := range s.K.Log {
		if e.P != r.P {
			continue
		}
		at := strings.TrimSuffix(e.Arg, "/")
		isRoot := at == w.root || under(at, "/tmp") && strings.Count(at, "/") == 2
		if e.Kind == "lstat" && isRoot && !open {
			// a root is only walked once, but it may be visited again to be removed
			if first || under(e.Arg, "/tmp") {
				ws = append(ws, walk{start: prev, low: e.T, high: e.T})
				cur = len(ws) - 1
				open, deeper = true, false
				first = false
			}
		} else if e.Kind == "lstat" && isRoot && open && !deeper {
			ws[cur].start = prev // what came before was not the walk yet
		} else if open {
			if !walking[e.Kind] {
				open = false
				ws[cur].then = e.Kind
			} else {
				ws[cur].high = e.T
				// configurations are also looked for after the walk
				if e.Kind == "lstat" && !strings.HasPrefix(path.Base(at), "prototool.") {
					deeper = true
					ws[cur].low = e.T
				}
			}
		}
		prev = e.T
	}
	if len(ws) == 0 {
		return
	}
	if w.timeout == 0 {
		if timedOut {
			c.Violate("C10.early", "%s although there is no limit", r.Desc())
		}
		c.Hit("c10.unlimited")
		return
	}
	must, may := false, false
	over := 0
	for i, x := range ws {
		// what follows the first walk may be the removal of a clone
		removal := i > 0 && (x.then == "unlink" || x.then == "rmdir" || x.then == "")
		if x.low-x.start > w.timeout && !removal {
			must = true
			over = i
		}
		if x.high-x.start >= w.timeout {
			may = true
		}
	}
	if must && !timedOut {
		c.Violate("C10.late", "%s although the walk took at least %s, and the limit is %s", r.Desc(), ws[over].low-ws[over].start, w.timeout)
		return
	}
	if timedOut && !may {
		c.Violate("C10.early", "%s although the walk took only %s, and the limit is %s", r.Desc(), ws[0].high-ws[0].start, w.timeout)
		return
	}
	if !timedOut {
		if w.timeout < time.Hour {
			c.Hit("c10.in_time")
		}
		return
	}
	c.Hit("c10.timed_out")
	if len(ws) > 1 {
		return
	}
	deadline := ws[0].start + w.timeout
	if r.P.Ended < deadline {
		c.Violate("C10.early", "%s after %s of walking, and the limit is %s", r.Desc(), r.P.Ended-ws[0].start, w.timeout)
	}
	n := 0
	var took time.Duration
	before := deadline
	for _, e := range s.K.Log {
		if e.P == r.P && e.T > deadline {
			n++
			// only what it does costs time, so anything beyond that is waiting
			if d := e.T - before; d > took {
				took = d
			}
			before = e.T
		}
	}
	if n > 30 {
		c.Violate("C10.slow", "%s, but it went on for %d operations after the limit of %s", r.Desc(), n, w.timeout)
	}
	if took > 14*time.Second {
		c.Violate("C10.slow", "%s, but it did nothing for %s after the limit of %s", r.Desc(), took, w.timeout)
	}
}

func init() {
	register("C10", "timeouts", 4, func(c *Ctx) {
		w := c.stroll(walkers)
		cfg := Quiet(c.Swarm("a"))
		cfg.LatencyP = []float64{0.3, 0.05, 0.9, 0.01}[c.N("latp", 4)]
		cfg.Latencies = [][]time.Duration{latencies, {7 * time.Millisecond, 60 * time.Millisecond}, {5 * time.Second, time.Millisecond}, {400 * time.Millisecond}, {13 * time.Second, 90 * time.Millisecond}}[c.N("lats", 5)]
		cfg.Horizon = 2 * time.Hour
		cfg.YieldP = 0
		v := c.Pick("timeout", "997ms", "default", "0", "2500300us", "10.0007s", "70ms500us", "40s", "0s")
		w.timeout = 3 * time.Second
		if v != "default" {
			if v == "0" {
				w.timeout = 0
			} else {
				d, err := time.ParseDuration(v)
				if err != nil {
					panic(err)
				}
				w.timeout = d
			}
		}
		s := w.g.Machine("a", cfg)
		c.Sample("%s; walk timeout %s", w.g.L.Describe(), v)
		r := w.g.L.Start(s, RunOpts{Walk: v})
		s.Run()
		w.judge(s, r, true)
	})
	register("C10", "complete", 2, func(c *Ctx) {
		w := c.stroll(walkers)
		w.timeout = -1
		s := w.g.Machine("a", Quiet(c.Swarm("a")))
		r := w.g.L.Do(s, RunOpts{})
		w.judge(s, r, true)
	})
	register("C10", "faults", 3, func(c *Ctx) {
		w := c.stroll(walkers)
		w.timeout = -1
		a := w.g.Machine("a", Quiet(c.Swarm("a")))
		ra := w.g.L.Do(a, RunOpts{Faulty: true})
		w.judge(a, ra, true)
		t := c.aim(a, 1+c.N("two", 2), func(e kern.EligibleOp, kind string) bool {
			return under(e.Arg, Work) || !strings.HasPrefix(e.Arg, "/")
		})
		if t == nil {
			return
		}
		b := w.g.Twin("b", a)
		b.K.Target = t
		rb := w.g.L.Do(b, RunOpts{Faulty: true})
		w.judge(b, rb, false)
	})
	register("C10", "linked", 2, func(c *Ctx) {
		// the same tree, reached through a symbolic link
		const link = "/work/link"
		g := c.Rig(LoadOpts{Except: []string{"cache-update", "cache-delete", "version"}, Proj: &ProjOpts{Errors: []float64{0, 0, 0.2}[c.N("errs", 3)], Unformatted: 0.2, Excludes: true, MaxDirs: 5, MaxFiles: 2, Rich: c.P("rich", 0.4)}})
		g.More = func(s *Sim) { s.K.FS.Symlink(Work, link) }
		a := g.Machine("a", Quiet(c.Swarm("a")))
		ra := g.L.Do(a, RunOpts{})
		l := *g.L
		there := func(p string) string { return strings.ReplaceAll(p, Work, link) }
		l.Cwd = link
		if g.L.Cwd != "" {
			l.Cwd = there(g.L.Cwd)
		}
		l.Args = nil
		for _, x := range g.L.Args {
			l.Args = append(l.Args, there(x))
		}
		l.Env = map[string]string{"PWD": l.Cwd}
		for n, v := range g.L.Env {
			l.Env[n] = there(v)
		}
		b := g.Twin("b", a)
		rb := l.Do(b, RunOpts{})
		if !ra.P.Exited() || !rb.P.Exited() {
			return
		}
		oa, ob := g.outcome(a, ra), g.outcome(b, rb)
		ob.out = strings.ReplaceAll(strings.ReplaceAll(ob.out, link, Work), "/link.", "/proj.")
		for _, f := range sortedKeys(ob.tree) {
			// a single output file is named like the directory
			if name := path.Base(f); strings.HasPrefix(name, "link.") && oa.tree[f] == "" {
				ob.tree[path.Dir(f)+"/proj."+strings.TrimPrefix(name, "link.")] = ob.tree[f]
				delete(ob.tree, f)
			}
		}
		if d := oa.diff(ob); d != "" {
			c.Violate("C10.linked", "prototool %s, run in %s, a link to %s: %s", strings.Join(l.Args, " "), l.Cwd, Work, d)
			return
		}
		c.Hit("c10.linked")
	})
}
