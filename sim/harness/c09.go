//go:build go1.25

package harness

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"time"

	"verif.local/sim/kern"
)

var (
	tmpNameRE = regexp.MustCompile(`/tmp/prototool[-a-z]*[0-9]+`)
	diffTime  = regexp.MustCompile(`(?m)^((?:---|\+\+\+) .*)\t.*$`)
)

// norm removes what is random by design: the names of temporary files and the time stamps diff prints.
func norm(s string) string {
	return diffTime.ReplaceAllString(tmpNameRE.ReplaceAllString(s, "/tmp/T"), "$1")
}

// commands lists the protoc runs of a prototool process, in no particular order.
func commands(s *Sim, r *Run) []string {
	var out []string
	for _, p := range s.ProtocRuns(r) {
		out = append(out, norm(strings.Join(p.Args, " ")))
	}
	sort.Strings(out)
	return out
}

func init() {
	// the same machine contents under unrelated schedules, latencies, CPU counts, hash seeds and directory orders
	run := func(name string, o func(c *Ctx) LoadOpts) func(c *Ctx) {
		return func(c *Ctx) {
			g := c.Rig(o(c))
			g.Cold = !g.L.NoCache && c.P("cold", 0.1)
			k := 2 + c.N("runs", 2)
			var oa outcome
			var ca []string
			for i := 0; i < k; i++ {
				cfg := Quiet(c.Swarm(fmt.Sprintf("m%d", i)))
				s := g.Machine(fmt.Sprintf("m%d", i), cfg)
				r := g.L.Do(s, RunOpts{})
				ob := g.outcome(s, r)
				ob.out = norm(ob.out)
				cb := commands(s, r)
				if i == 0 {
					oa, ca = ob, cb
					continue
				}
				if d := oa.diff(ob); d != "" {
					c.Violate("C09.output", "%s depends on the schedule (machine m%d, %d CPUs): %s", r.Desc(), i, cfg.NumCPU, d)
				}
				// an interrupted or failed preparation starts fewer protoc runs, but here nothing fails from outside
				if !sameStrings(ca, cb) {
					x, y := firstDiff(ca, cb)
					c.Violate("C09.protoc", "%s runs protoc differently (machine m%d): %q instead of %q", strings.Join(r.Args, " "), i, clip(y, 500), clip(x, 500))
				}
			}
			if len(ca) > 1 {
				c.Hit("c09.several_protocs")
			}
		}
	}
	register("C09", "any", 2, run("any", func(c *Ctx) LoadOpts {
		return LoadOpts{Errors: []float64{0, 0.15, 0.4}[c.N("errs", 3)]}
	}))
	register("C09", "dirs", 3, run("dirs", func(c *Ctx) LoadOpts {
		return LoadOpts{Only: []string{"compile", "generate", "generate-dry", "compile-dry", "all", "format", "format-d", "format-l", "lint", "lint-ignores", "ds", "ds-json", "break-out", "break-ds", "break-git", "break-json", "files", "inspect"},
			Proj: &ProjOpts{Errors: []float64{0, 0, 0.3, 0.6}[c.N("errs", 4)], Unformatted: 0.6, LintFail: []float64{0, 0.5}[c.N("lf", 2)], MaxDirs: 7, MaxFiles: 2, Silent: c.P("silent", 0.5), GoPlugin: c.P("goplug", 0.6), GenOdd: c.P("odd", 0.3), Excludes: true, Plugins: 3, Rich: c.P("rich", 0.6)}}
	}))
	register("C09", "reports", 2, run("reports", func(c *Ctx) LoadOpts {
		return LoadOpts{Only: []string{"lint", "lint", "lint", "lint-ignores", "lint-file", "format", "break-ds", "inspect", "generate-dry"},
			Proj: &ProjOpts{Errors: []float64{0, 0, 0.5}[c.N("errs", 3)], Unformatted: 0.3, LintFail: 0.5, MaxDirs: 3, MaxFiles: 4, Rich: true, Excludes: true, Plugins: 3, GoPlugin: true}}
	}))
	// the same command twice on one machine: a command that does not write must repeat itself exactly
	register("C09", "again", 1, func(c *Ctx) {
		g := c.Rig(LoadOpts{Errors: []float64{0, 0.3}[c.N("errs", 2)], Except: []string{"create", "init", "init-dir", "format-w", "format-fw", "all", "generate", "all-nofmt", "all-nolint", "all-fix", "cache-delete", "ds-out", "ds-json-out", "break-out", "grpc", "grpc-data", "create-pkg", "init-doc"}})
		s := g.Machine("a", Quiet(c.Swarm("a")))
		var first outcome
		for i := 0; i < 3; i++ {
			r := g.L.Do(s, RunOpts{})
			o := g.outcome(s, r)
			o.out = norm(o.out)
			if i == 0 {
				first = o
			} else if d := first.diff(o); d != "" {
				c.Violate("C09.again", "%s the %d. time: %s", r.Desc(), i+1, d)
			}
			s.K.After(time.Minute, func() {})
		}
	})
	_ = kern.Hash64
}

func firstDiff(a, b []string) (string, string) {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "", ""
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return x, y
		}
	}
	return "", ""
}
