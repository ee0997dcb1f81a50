//go:build go1.25

package harness

import (
	"fmt"
	"strings"
	"syscall"
	"time"
)

// again disturbs a command and then runs it once more: the second run has to be like an undisturbed one.
func again(c *Ctx, how string) {
	g := c.Rig(LoadOpts{Except: []string{"create", "create-pkg", "create-nodir", "init", "init-dir", "init-doc", "grpc", "grpc-data", "help", "version", "version-json"}, Proj: &ProjOpts{Errors: []float64{0, 0, 0.1}[c.N("errors", 3)], Unformatted: 0.4,
		LintFail: []float64{0, 0.2}[c.N("lintfail", 2)], Excludes: true, MaxDirs: 4, MaxFiles: 3, Plugins: 3, Rich: c.P("rich", 0.5)}})
	g.Cold = c.P("cold", 0.35)
	l := g.L
	cfg := Quiet(brisk(c, "a"))
	cfg.Horizon = 100 * 24 * time.Hour
	a := g.Machine("a", cfg)
	o := RunOpts{Crashable: true, Faulty: true, KidFaulty: c.P("kids", 0.4)}
	ra := l.Do(a, o)
	want := g.outcome(a, ra)
	story := []string{"undisturbed: " + ra.Desc()}
	length := a.K.Now()
	b := g.Twin("b", a)
	off := func() {}
	switch how {
	case "killed":
		b.K.Target = c.aimCrash(a, nil)
	case "faults":
		b.K.Target = c.aim(a, 1+c.N("n", 3), nil)
	case "interrupted":
	case "power":
		off = c.blackout("cut", a, b)
	}
	before := userTree(b)
	r := l.Start(b, o)
	if how == "interrupted" {
		sig := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM, syscall.SIGKILL}[c.N("sig", 3)]
		b.K.After(time.Duration(c.N("when", int(length/time.Microsecond)+1))*time.Microsecond, func() {
			if !r.P.Exited() {
				c.Hit("c23.signal")
				b.K.Kill(r.P, sig)
			}
		})
	}
	if how != "often" {
		b.Run()
		off()
	}
	for i := 1; how == "often" && i <= 4; i++ {
		if i > 1 {
			r = l.Start(b, o)
		}
		b.K.After(time.Duration(c.N(fmt.Sprintf("when%d", i), int(length/time.Microsecond)+1))*time.Microsecond, func() {
			if !r.P.Exited() {
				c.Hit("c23.signal")
				b.K.Kill(r.P, syscall.SIGKILL)
			}
		})
		b.Run()
	}
	if !r.OK() {
		c.Hit("c23.not_ok")
	}
	story = append(story, fmt.Sprintf("disturbed (%s): %s, faults %q", how, r.Desc(), faultsOf(b)))
	b.K.Target = nil
	left := userTree(b)
	if age := c.PickDur("age", 0, 0, 0, 30*time.Second, 2*time.Hour, 40*24*time.Hour); age > 0 {
		b.K.After(age, func() {})
		b.Run()
	}
	for i := 0; i < 1+c.N("times", 2); i++ {
		r = l.Do(b, RunOpts{})
		got := g.outcome(b, r)
		for p, v := range got.tree {
			if _, ok := want.tree[p]; !ok && before[p] == "" && left[p] == v {
				delete(got.tree, p) // what a killed process has left
			}
		}
		story = append(story, "again: "+r.Desc())
		if d := want.diff(got); d != "" {
			c.Violate("C23.again", "%s; %s", d, strings.Join(story, "; "))
			return
		}
		if l.Name == "cache-delete" {
			break
		}
	}
	if want.code == 0 {
		c.Hit("c23.ok")
	}
	c.Hit("c23.compared")
}

func init() {
	register("C23", "killed", 3, func(c *Ctx) { again(c, "killed") })
	register("C23", "faults", 3, func(c *Ctx) { again(c, "faults") })
	register("C23", "interrupted", 2, func(c *Ctx) { again(c, "interrupted") })
	register("C23", "often", 1, func(c *Ctx) { again(c, "often") })
	register("C23", "others", 2, func(c *Ctx) {
		x := c.crowd(3)
		x.learn()
		if c.Failed() {
			return
		}
		// the first one is disturbed, the others run after it
		o := RunOpts{Crashable: true, Faulty: true}
		a := x.put(c.Sim("a", Quiet(brisk(c, "a"))))
		x.loads[0].Do(a, o)
		b := x.put(c.Twin("b", a))
		if c.P("crash", 0.6) {
			b.K.Target = c.aimCrash(a, nil)
		} else {
			b.K.Target = c.aim(a, 1+c.N("n", 2), nil)
		}
		first := x.loads[0].Do(b, o)
		b.K.Target = nil
		for i, l := range x.loads[1:] {
			before := userTree(b)
			r := l.Do(b, RunOpts{})
			g := &Rig{C: c, L: l}
			got := g.outcome(b, r)
			tree := got.tree
			got.tree = nil
			d := x.alone[i+1].diff(got)
			want := before
			for f, v := range x.adds[i+1] {
				want[f] = v
			}
			if ch := Diff(want, tree); d == "" && len(ch) > 0 {
				d = "files differ: " + clip(strings.Join(ch, ", "), 300)
			}
			if d != "" {
				c.Violate("C23.others", "%s: %s; it ran after %s with the faults %q", r.Desc(), d, first.Desc(), faultsOf(b))
				return
			}
		}
		c.Hit("c23.others")
	})
	register("C23", "power", 2, func(c *Ctx) { again(c, "power") })
}
