//go:build go1.25

package harness

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

// crowd is a number of commands that run at the same time in one tree. None of them rewrites what another one reads.
type crowd struct {
	c     *Ctx
	loads []*Load
	at    []time.Duration
	set   []byte
	warm  *Sim
	alone []outcome
	adds  []map[string]string // what each changes in the tree when it runs alone
	run   []*Run
}

var crowdLoads = []string{"files", "files-arg", "compile", "compile-arg", "compile-dry", "lint", "lint-ignores", "format", "format-d", "format-l", "generate",
	"generate-dry", "all-nofmt", "ds", "ds-json", "ds-out", "ds-json-out", "ds-tmp", "ds-tmp", "break-git", "break-git", "break-ds", "break-out", "inspect", "inspect-deps",
	"cache-update", "compile-file", "lint-file", "generate-file", "ds-file", "lint-list"}

func (c *Ctx) crowd(max int) *crowd {
	x := &crowd{c: c}
	p := c.Proj("p", ProjOpts{Errors: []float64{0, 0, 0.1}[c.N("errors", 3)], Unformatted: 0.3, LintFail: 0.1, Excludes: true, MaxDirs: 3, MaxFiles: 3, Rich: c.P("rich", 0.5), Plugins: 3, NoShared: true})
	slow := c.P("slow", 0.2)
	if slow {
		c.slowDown("p", p.Files)
	}
	n := 2 + c.N("commands", max-1)
	outs := map[string]bool{}
	var prev map[string]string
	same := c.P("same", 0.3)
	for i := 0; i < n; i++ {
		o := LoadOpts{Only: crowdLoads, On: p}
		if same && i > 0 {
			o.Only = []string{x.loads[0].Name}
		}
		l := c.Load(fmt.Sprintf("l%d", i), o)
		if l.Out != "" {
			if outs[l.Out] {
				continue
			}
			outs[l.Out] = true
		}
		if l.Prev != nil {
			if prev == nil {
				prev = l.Prev
			}
			l.Prev = prev
		}
		l.Label = fmt.Sprintf("cmd%d", i)
		x.loads = append(x.loads, l)
		at := c.PickDur(fmt.Sprintf("at%d", i), 0, 0, time.Millisecond, 7*time.Millisecond, 40*time.Millisecond, 300*time.Millisecond)
		if slow {
			at = c.PickDur(fmt.Sprintf("at%d", i), 0, time.Millisecond, 100*time.Millisecond, time.Second, 12*time.Second, 25*time.Second)
		}
		x.at = append(x.at, at)
	}
	x.warm = c.WarmCache()
	for _, l := range x.loads {
		if b := l.PrevSet(c, x.warm); b != nil {
			x.set = b
			break
		}
	}
	var b []string
	for i, l := range x.loads {
		b = append(b, fmt.Sprintf("[%s] prototool %s at %v", l.Label, strings.Join(l.Args, " "), x.at[i]))
	}
	c.Sample("%s; %s", strings.Join(b, "; "), p.Describe())
	return x
}

func (x *crowd) put(s *Sim) *Sim {
	s.Warm(x.warm)
	for _, l := range x.loads {
		l.Put(s, x.set)
	}
	return s
}

// learn runs each command alone.
func (x *crowd) learn() {
	for i, l := range x.loads {
		s := x.put(x.c.Sim("alone"+l.Label, Plain()))
		before := userTree(s)
		r := l.Do(s, RunOpts{})
		g := &Rig{C: x.c, L: l}
		o := g.outcome(s, r)
		add := map[string]string{}
		for f, v := range o.tree {
			if before[f] != v {
				add[f] = v
			}
		}
		for f := range before {
			if _, ok := o.tree[f]; !ok {
				x.c.Violate("C20.tree", "%s alone removed %s", r.Desc(), f)
			}
		}
		o.tree = nil
		x.alone, x.adds = append(x.alone, o), append(x.adds, add)
		if i == 0 && r.OK() {
			x.c.Hit("c20.ok_alone")
		}
	}
}

// start starts all of them.
func (x *crowd) start(s *Sim, o func(i int) RunOpts) {
	x.run = make([]*Run, len(x.loads))
	for i, l := range x.loads {
		if x.at[i] == 0 {
			x.run[i] = l.Start(s, o(i))
			continue
		}
		s.K.After(x.at[i], func() { x.run[i] = l.Start(s, o(i)) })
	}
}

// judge compares each command that was not disturbed with what it does alone.
func (x *crowd) judge(s *Sim, before map[string]string, bad int) {
	c := x.c
	var who []string
	for i, l := range x.loads {
		who = append(who, fmt.Sprintf("prototool %s (at %v)", strings.Join(l.Args, " "), x.at[i]))
	}
	story := "running at once: " + strings.Join(who, ", ")
	if bad >= 0 {
		story += fmt.Sprintf("; the one that was disturbed: %s, %s; faults: %s", x.loads[bad].Label, x.run[bad].Desc(), faultsOf(s))
	}
	want := map[string]string{}
	for f, v := range before {
		want[f] = v
	}
	for i, r := range x.run {
		if i == bad {
			continue
		}
		if r == nil || !r.P.Exited() {
			c.Violate("C20.other", "%s: %s has not ended", story, x.loads[i].Label)
			return
		}
		g := &Rig{C: c, L: x.loads[i]}
		o := g.outcome(s, r)
		o.tree = nil
		if d := x.alone[i].diff(o); d != "" {
			c.Violate("C20.other", "%s is different from when it runs alone: %s; %s", r.Desc(), d, story)
			return
		}
		for f, v := range x.adds[i] {
			want[f] = v
		}
	}
	for _, d := range Diff(want, userTree(s)) {
		if i := strings.IndexByte(d, ' '); bad >= 0 && (x.loads[bad].mayWrite(d[i+1:]) || x.adds[bad][d[i+1:]] != "") {
			continue
		}
		c.Violate("C20.tree", "the tree is not what the commands alone make of it: %s; %s", d, story)
		return
	}
	if bad < 0 {
		var left []string
		for f := range s.K.FS.Snapshot("/tmp") {
			left = append(left, f)
		}
		tmps := 0
		for i, l := range x.loads {
			if l.Tmp && x.run[i].OK() {
				tmps++
			}
		}
		sort.Strings(left)
		if len(left)-1 > tmps {
			c.Violate("C20.left", "%d files are left in /tmp, expected %d: %s; %s", len(left)-1, tmps, strings.Join(left, " "), story)
		}
	}
	c.Hit("c20.compared")
}

func init() {
	register("C20", "together", 3, func(c *Ctx) {
		x := c.crowd(4)
		x.learn()
		if c.Failed() {
			return
		}
		s := x.put(c.Sim("a", Quiet(brisk(c, "a"))))
		before := userTree(s)
		x.start(s, func(int) RunOpts { return RunOpts{} })
		s.Run()
		x.judge(s, before, -1)
	})
	register("C20", "rewritten", 2, func(c *Ctx) {
		// files are rewritten while others read them, for which their format does not matter
		p := c.Proj("p", ProjOpts{Unformatted: 0.9, Excludes: true, MaxDirs: 4, MaxFiles: 4, Rich: c.P("rich", 0.5), NoShared: true})
		x := &crowd{c: c}
		for i, n := 0, 1+c.N("readers", 3); i <= n; i++ {
			o := LoadOpts{On: p, Only: []string{"files", "files-arg", "files", "compile", "compile-arg", "compile-dry", "compile-file", "cache-update"}}
			at := c.PickDur(fmt.Sprintf("at%d", i), 0, 0, 0, time.Millisecond, 7*time.Millisecond, 40*time.Millisecond)
			if i == n {
				o.Only = []string{"format-w", "format-w", "format-fw", "all-nolint"}
				at = c.PickDur("atwriter", 0, 0, time.Millisecond, 20*time.Millisecond)
			}
			l := c.Load(fmt.Sprintf("l%d", i), o)
			l.Label = fmt.Sprintf("cmd%d", i)
			x.loads, x.at = append(x.loads, l), append(x.at, at)
		}
		x.warm = c.WarmCache()
		x.learn()
		if c.Failed() {
			return
		}
		c.Sample("%s; %s", strings.Join(x.loads[len(x.loads)-1].Args, " "), p.Describe())
		s := x.put(c.Sim("a", Quiet(brisk(c, "a"))))
		before := userTree(s)
		x.start(s, func(int) RunOpts { return RunOpts{} })
		s.Run()
		x.judge(s, before, -1)
		c.Hit("c20.rewritten")
	})
	register("C20", "disturbed", 2, func(c *Ctx) {
		x := c.crowd(3)
		x.learn()
		if c.Failed() {
			return
		}
		bad := c.N("bad", len(x.loads))
		o := func(i int) RunOpts { return RunOpts{Crashable: i == bad, Faulty: i == bad} }
		s := x.put(c.Sim("a", Quiet(brisk(c, "a"))))
		before := userTree(s)
		x.start(s, o)
		s.Run()
		x.judge(s, before, -1)
		var t map[string]int
		kill := false
		switch c.N("how", 3) {
		case 0:
			t, kill = c.aimCrash(s, nil), true
		case 1:
			t = c.aim(s, 1+c.N("two", 2), nil)
		}
		b := x.put(c.Twin("b", s))
		before = userTree(b)
		if t != nil {
			b.K.Target = t
		} else {
			b.K.After(c.PickDur("sig", 0, 3*time.Millisecond, 20*time.Millisecond, 90*time.Millisecond, 400*time.Millisecond)+x.at[bad], func() {
				if r := x.run[bad]; r != nil && !r.P.Exited() {
					c.Hit("c20.interrupted")
					b.K.Kill(r.P, 2)
				}
			})
		}
		x.start(b, o)
		b.Run()
		if kill && len(b.K.Fired)+b.K.Crashes > 0 {
			c.Hit("c20.killed")
		}
		if x.run[bad] == nil {
			return
		}
		x.judge(b, before, bad)
	})
}
