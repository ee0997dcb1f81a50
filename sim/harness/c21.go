//go:build go1.25

package harness

import (
	"sort"
	"strings"
)

func init() {
	register("C21", "dry", 1, func(c *Ctx) {
		kinds := []string{"compile", "compile-arg", "compile-file", "generate", "generate", "generate-file"}
		g := c.Rig(LoadOpts{Only: kinds, Proj: &ProjOpts{Errors: []float64{0, 0, 0.2}[c.N("errors", 3)], Excludes: true, MaxDirs: 5, MaxFiles: 3, Plugins: 4, GoPlugin: true, GenOdd: c.P("odd", 0.3), Rich: c.P("rich", 0.6)}})
		l := g.L
		real := append([]string(nil), l.Args...)
		l.Args = append(append([]string(nil), l.Args...), "--dry-run")
		a := g.Machine("a", Quiet(c.Swarm("a")))
		before := userTree(a)
		ra := l.Do(a, RunOpts{})
		dry := ra.Stdout()
		ok := ra.OK()
		if n := s0(a, ra); n != "" {
			c.Violate("C21.ran", "%s ran %s", ra.Desc(), n)
		}
		for _, d := range Diff(before, userTree(a)) {
			c.Violate("C21.ran", "%s: %s", ra.Desc(), d)
		}
		desc := ra.Desc()
		l.Args = real
		b := g.Machine("b", Quiet(c.Swarm("b")))
		rb := l.Do(b, RunOpts{})
		var did []string
		for _, pr := range b.ProtocRuns(rb) {
			did = append(did, strings.Join(pr.P.Argv, " "))
		}
		var said []string
		for _, t := range strings.Split(dry, "\n") {
			if strings.Contains(t, " -I ") && !strings.Contains(t, "\t") && !strings.Contains(t, "{") {
				said = append(said, t)
			}
		}
		if !ok {
			if len(did) > 0 {
				c.Violate("C21.failed", "%s, but without --dry-run it runs %d times protoc: %s", desc, len(did), rb.Desc())
			}
			c.Hit("c21.failed")
			return
		}
		sort.Strings(did)
		sort.Strings(said)
		if strings.Join(said, "\n") != strings.Join(did, "\n") {
			x, y := firstDiff(said, did)
			c.Violate("C21.differs", "%s announces %q, but without --dry-run %q is run", desc, x, y)
		}
		if strings.Count(dry, "\n") != len(said) && !strings.Contains(strings.Join(real, " "), "--debug") {
			c.Violate("C21.differs", "%s prints something else than commands: %s", desc, clip(dry, 300))
		}
		if len(said) > 1 {
			c.Hit("c21.many")
		}
		c.Hit("c21.compared")
	})
}

// s0 tells what a command has run apart from checking the version of protoc.
func s0(s *Sim, r *Run) string {
	for _, k := range s.Descendants(r) {
		if k != r.P && !contains(k.Argv, "--version") {
			return strings.Join(k.Argv, " ")
		}
	}
	return ""
}
