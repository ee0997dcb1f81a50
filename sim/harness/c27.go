//go:build go1.25

package harness

import (
	"fmt"
	"strings"

	"verif.local/sim/kern"
)

func init() {
	register("C27", "load", 1, func(c *Ctx) {
		// a large project, and a small part of it, on a machine with some number of CPUs
		p := c.Proj("p", ProjOpts{Errors: []float64{0, 0, 0.1}[c.N("errors", 3)], Unformatted: 0.3, LintFail: []float64{0, 0.2}[c.N("lintfail", 2)], MaxDirs: 8, MaxFiles: 3, Plugins: 3, NoShared: true, Silent: c.P("silent", 0.3), Rich: c.P("rich", 0.3)})
		fs := p.Selected(".")
		first := fs[0]
		more := 6 + c.N("more", 30)
		for i := 0; i < more; i++ {
			d := fmt.Sprintf("more%d/x", i)
			n := 1 + c.N(fmt.Sprintf("files%d", i), 2)
			for j := 0; j < n; j++ {
				p.Files[fmt.Sprintf("%s/f%d.proto", d, j)] = fmt.Sprintf("syntax = \"proto3\";\n\npackage more%d.x;\n\noption go_package = \"xpb\";\n\nmessage M%d {\n  string value = 1;\n}\n", i, j)
			}
		}
		if c.P("slow", 0.7) {
			c.slowDown("slow", p.Files)
		}
		g := c.Rig(LoadOpts{On: p, Only: []string{"compile", "lint", "format", "format-l", "format-w", "generate", "generate", "all", "all-nofmt", "ds", "ds-json", "ds-out", "inspect", "break-git", "compile-dry", "files"}})
		l := g.L
		cpus := 1 + c.N("cpus", 6)
		part := *l
		small := *p
		small.Files = map[string]string{first: p.Files[first]}
		part.P = &small
		open := map[string]int{}
		for _, m := range []string{"part", "whole"} {
			x := l
			if m == "part" {
				x = &part
			}
			gm := &Rig{C: c, L: x, Warm: g.Warm, Set: g.Set}
			cfg := Quiet(c.Swarm(m))
			cfg.NumCPU = cpus
			if m == "whole" && c.P("disturb", 0.3) {
				cfg = c.disturb(m, false)
				cfg.NumCPU = cpus
			}
			s := gm.Machine(m, cfg)
			r := x.Start(s, RunOpts{NumCPU: cpus, Faulty: true})
			peak, story := 0, ""
			var seen []*kern.Proc
			s.K.OnEvent = func(e *kern.Event) {
				if e.Kind != "exec" || e.P != r.P {
					return
				}
				n := 0
				seen = seen[:0]
				for _, k := range r.P.Kids {
					if !k.Dead {
						n++
						seen = append(seen, k)
					}
				}
				if n > peak {
					peak, story = n, ""
					for _, k := range seen {
						story += " / " + clip(strings.Join(k.Argv, " "), 120)
					}
				}
			}
			s.Run()
			open[m] = r.P.Opens
			if peak > cpus {
				c.Violate("C27.processes", "%s has %d processes running at the same time, with %d CPUs:%s", r.Desc(), peak, cpus, clip(story, 1500))
				return
			}
			if peak > 1 {
				c.Hit("c27.parallel")
			}
			if r.OK() {
				c.Hit("c27.ok")
			}
			if m == "whole" {
				c.Sample("%s: %d processes, %d and %d files open, %d CPUs, %d directories", strings.Join(l.Args, " "), peak, open["part"], open[m], cpus, len(Dirs(p.Selected("."))))
				// every process that runs may have a few pipes
				if o := open["part"]; open[m] > o+8*cpus {
					c.Violate("C27.files", "%s has %d files open at the same time with %d directories, but %d with one; %d CPUs", r.Desc(), open[m], len(Dirs(p.Selected("."))), o, cpus)
				}
				if r.P.Exited() {
					for _, k := range r.P.Kids {
						if !k.Dead {
							c.Violate("C27.processes", "%s has ended, but %s is still running", r.Desc(), strings.Join(k.Argv, " "))
							return
						}
					}
				}
			}
		}
	})
}
