//go:build go1.25

package harness

import "strings"

func init() {
	for _, n := range AllLoads {
		n := n
		register("X00", n, 1, func(c *Ctx) {
			l := c.Load("l", LoadOpts{Only: []string{n}})
			warm := c.WarmCache()
			set := l.PrevSet(c, warm)
			s := c.Sim("a", Quiet(c.Swarm("a")))
			s.Warm(warm)
			l.Put(s, set)
			before := s.K.FS.Snapshot("/")
			r := l.Do(s, RunOpts{})
			c.Sample("%s", strings.Replace(r.Desc(), "\n", "⏎", -1))
			d := Diff(before, s.K.FS.Snapshot("/"))
			if len(d) < 12 {
				c.Sample("%s", strings.Join(d, "; "))
			}
		})
	}
}
