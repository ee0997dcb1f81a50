//go:build go1.25

package harness

import (
	"fmt"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/kern"
)

// Rig is a command with everything needed to put it on machines.
type Rig struct {
	C    *Ctx
	L    *Load
	Warm *Sim
	Set  []byte
	Cold bool // the cache is empty
	More func(s *Sim)
}

// Rig prepares a command.
func (c *Ctx) Rig(o LoadOpts) *Rig {
	g := &Rig{C: c, L: c.Load("l", o)}
	g.Warm = c.WarmCache()
	g.Set = g.L.PrevSet(c, g.Warm)
	c.Sample("%s", g.L.Describe())
	return g
}

func (g *Rig) put(s *Sim) *Sim {
	if g.Cold {
		s.World()
	} else {
		s.Warm(g.Warm)
	}
	g.L.Put(s, g.Set)
	if g.More != nil {
		g.More(s)
	}
	return s
}

// Machine creates a machine ready for the command.
func (g *Rig) Machine(name string, cfg kern.Config) *Sim {
	if g.L.Name == "cache-delete" {
		cfg.LatencyP = 0 // it walks the tree, but its walk timeout cannot be set
	}
	return g.put(g.C.Sim(name, cfg))
}

// Twin creates a machine like another one.
func (g *Rig) Twin(name string, of *Sim) *Sim { return g.put(g.C.Twin(name, of)) }

// userTree is everything that is neither temporary nor cache.
func userTree(s *Sim) map[string]string {
	m := s.K.FS.Snapshot("/")
	for p := range m {
		if under(p, "/tmp") || under(p, DefaultCache) || p == Home+"/.cache" {
			delete(m, p)
		}
	}
	return m
}

// outcome is what a user sees of a command.
type outcome struct {
	code int
	out  string
	tree map[string]string
	tmp  string
}

func (g *Rig) outcome(s *Sim, r *Run) outcome {
	o := outcome{code: r.Code(), out: r.Stdout(), tree: userTree(s)}
	if g.L.Tmp {
		name := strings.TrimSpace(o.out)
		if b, ok := s.K.FS.Get(name); ok && strings.HasPrefix(name, "/tmp/") {
			o.tmp = string(b)
			o.out = "<tmp>\n"
		}
	}
	return o
}

func (a outcome) diff(b outcome) string {
	if a.code != b.code {
		return fmt.Sprintf("the exit code is %d instead of %d", b.code, a.code)
	}
	if a.out != b.out {
		return fmt.Sprintf("the output is %q instead of %q", clip(b.out, 300), clip(a.out, 300))
	}
	if a.tmp != b.tmp {
		return fmt.Sprintf("the temporary output file has %d bytes instead of %d, or other content", len(b.tmp), len(a.tmp))
	}
	if d := Diff(a.tree, b.tree); len(d) > 0 {
		return "files differ: " + clip(strings.Join(d, ", "), 300)
	}
	return ""
}

// faultsOf describes the faults a machine met.
func faultsOf(s *Sim) string {
	var out []string
	for _, e := range s.K.Log {
		if e.Fault != "" {
			out = append(out, fmt.Sprintf("%s at %s %s of %s", e.Fault, e.Kind, e.Arg, e.Proc))
		}
	}
	return strings.Join(out, "; ")
}

// aim picks operations of a baseline run and forces faults at them.
func (c *Ctx) aim(a *Sim, n int, filter func(e kern.EligibleOp, kind string) bool) map[string]int {
	return c.aimAs("aim", a, n, filter)
}

func (c *Ctx) aimAs(key string, a *Sim, n int, filter func(e kern.EligibleOp, kind string) bool) map[string]int {
	type cand struct {
		key, kind string
		v         int
	}
	var cs []cand
	for _, e := range a.K.Eligible {
		for i, kd := range e.Kinds {
			if filter == nil || filter(e, kd) {
				cs = append(cs, cand{e.Key, kd, i + 1})
			}
		}
	}
	if len(cs) == 0 {
		return nil
	}
	t := map[string]int{}
	for i := 0; i < n; i++ {
		x := cs[c.N(fmt.Sprintf("%s%d", key, i), len(cs))]
		t[x.key] = x.v
	}
	return t
}

// aimCrash picks an operation of a baseline run and kills the process there.
func (c *Ctx) aimCrash(a *Sim, filter func(e kern.EligibleOp) bool) map[string]int {
	return c.aimCrashAs("aimcrash", a, filter)
}

func (c *Ctx) aimCrashAs(key string, a *Sim, filter func(e kern.EligibleOp) bool) map[string]int {
	var cs []kern.EligibleOp
	for _, e := range a.K.CrashOps {
		if filter == nil || filter(e) {
			cs = append(cs, e)
		}
	}
	if len(cs) == 0 {
		return nil
	}
	e := cs[c.N(key, len(cs))]
	m := 2
	if e.Kind == "write" {
		m = 3
	}
	return map[string]int{e.Key: 1 + c.N(key+"how", m)}
}

// fsKinds are the fault kinds of file system and process operations.
var fsKinds = map[string]bool{"open.*": true, "stat.*": true, "read.*": true, "write.*": true, "close.*": true, "sync.*": true, "mkdir.*": true,
	"unlink.*": true, "rename.*": true, "readdir.*": true, "chmod.*": true, "flock.*": true, "truncate.*": true, "link.*": true, "symlink.*": true,
	"readlink.*": true, "getcwd.*": true, "exec.*": true}

func faultKinds(c *Ctx) map[string]bool {
	m := c.Subset("kinds", keysOfBool(fsKinds), 0.4)
	if len(m) == 0 {
		m["read.*"] = true
	}
	return m
}

func keysOfBool(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// disturb makes a configuration with random faults, and crashes if wanted.
func (c *Ctx) disturb(name string, crash bool) kern.Config {
	cfg := c.Swarm(name)
	mode := c.N("disturb", 3)
	if !crash {
		mode = 1
	}
	if mode != 2 {
		cfg.Faults = faultKinds(c)
		cfg.FaultP = []float64{0.005, 0.02, 0.06}[c.N("rate", 3)]
		cfg.MaxFaults = 1 + c.N("max", 4)
	}
	if mode != 1 {
		cfg.CrashP = []float64{0.005, 0.02}[c.N("crashrate", 2)]
		cfg.MaxCrashes = 1
	}
	return cfg
}

// checkWrites judges every change to the tree of the user: allowed tells which existing or new paths the command may
// change. New names in the directory of an allowed path may appear while the command runs.
func (g *Rig) checkWrites(class string, s *Sim, r *Run, before map[string]string, killed bool) {
	l := g.L
	allowed := func(p string) bool {
		if l.InPlace && strings.HasSuffix(p, ".proto") && before[p] != "" {
			for _, f := range l.Rewritable() {
				if p == l.P.Root+"/"+f {
					return true
				}
			}
			return false
		}
		return l.mayWrite(p)
	}
	nearby := func(p string) bool {
		if before[p] != "" {
			return false
		}
		d := path.Dir(p)
		if l.InPlace {
			for _, f := range l.Rewritable() {
				if d == path.Dir(l.P.Root+"/"+f) {
					return true
				}
			}
		}
		for _, w := range l.Writes {
			if !strings.HasPrefix(w, "/") {
				w = path.Join(Work, w)
			}
			if d == path.Dir(w) {
				return true
			}
		}
		return false
	}
	inTree := func(p string) bool {
		return !under(p, "/tmp") && !under(p, DefaultCache) && p != Home+"/.cache" && p != "/tmp"
	}
	for _, m := range s.Muts {
		if inTree(m.Path) && !allowed(m.Path) && !nearby(m.Path) {
			g.C.Violate(class, "%s: %s %s by %s; faults: %s", r.Desc(), m.Kind, m.Path, m.P.Label, faultsOf(s))
			return
		}
	}
	unlinkFault := false
	for k := range s.K.Fired {
		if strings.HasPrefix(k, "unlink.") {
			unlinkFault = true
		}
	}
	for _, d := range Diff(before, userTree(s)) {
		i := strings.IndexByte(d, ' ')
		p := d[i+1:]
		if allowed(p) || d[:i] == "added" && (killed || unlinkFault) && nearby(p) {
			continue
		}
		g.C.Violate(class, "%s: afterwards, %s; faults: %s", r.Desc(), d, faultsOf(s))
		return
	}
}

func (l *Load) mayWrite(p string) bool {
	for _, w := range l.Writes {
		if !strings.HasPrefix(w, "/") {
			w = path.Join(Work, w)
		}
		if under(p, w) || under(w, p) {
			return true
		}
	}
	return false
}

func init() {
	register("C16", "aimed", 3, func(c *Ctx) {
		g := c.Rig(LoadOpts{Errors: []float64{0, 0, 0.15}[c.N("errs", 3)], Except: []string{"help", "version", "version-json", "lint-list", "lint-groups", "lint-diff"}})
		g.Cold = !g.L.NoCache && c.P("cold", 0.15)
		a := g.Machine("a", Quiet(c.Swarm("a")))
		o := RunOpts{Faulty: true, KidFaulty: c.P("kids", 0.3)}
		ra := g.L.Do(a, o)
		oa := g.outcome(a, ra)
		t := c.aim(a, 1+c.N("two", 2)*c.N("two2", 2), func(e kern.EligibleOp, kind string) bool { return !strings.HasPrefix(kind, "stdout.") })
		if t == nil {
			return
		}
		b := g.Twin("b", a)
		b.K.Target = t
		rb := g.L.Do(b, o)
		g.checkSame(oa, b, rb)
	})
	// the operations on the user's own files are few among all those of a command: one of them fails
	register("C16", "mine", 2, func(c *Ctx) {
		g := c.Rig(LoadOpts{Errors: []float64{0, 0, 0.15}[c.N("errs", 3)], Except: []string{"help", "version", "version-json", "init", "init-doc", "init-dir", "lint-list", "lint-groups", "lint-diff", "cache-update", "cache-delete"}})
		a := g.Machine("a", Plain())
		o := RunOpts{Faulty: true}
		ra := g.L.Do(a, o)
		oa := g.outcome(a, ra)
		kinds := map[string][]string{}
		for _, e := range a.K.Eligible {
			if e.Proc == "main" && strings.Contains(e.Arg, Work) && !strings.Contains(e.Arg, "/.prototool") {
				for _, kd := range e.Kinds {
					kinds[kd] = append(kinds[kd], e.Key)
				}
			}
		}
		if len(kinds) == 0 {
			return
		}
		var names []string
		for kd := range kinds {
			names = append(names, kd)
		}
		sort.Strings(names)
		kd := names[c.N("kind", len(names))]
		t := c.aim(a, 1, func(e kern.EligibleOp, kind string) bool {
			return kind == kd && e.Proc == "main" && strings.Contains(e.Arg, Work) && !strings.Contains(e.Arg, "/.prototool")
		})
		b := g.Twin("b", a)
		b.K.Target = t
		rb := g.L.Do(b, o)
		g.checkSame(oa, b, rb)
	})
	register("C16", "random", 1, func(c *Ctx) {
		g := c.Rig(LoadOpts{Errors: []float64{0, 0, 0.15}[c.N("errs", 3)], Except: []string{"help", "version", "version-json", "lint-list", "lint-groups", "lint-diff"}})
		a := g.Machine("a", Plain())
		ra := g.L.Do(a, RunOpts{})
		oa := g.outcome(a, ra)
		b := g.Machine("b", c.disturb("b", false))
		rb := g.L.Do(b, RunOpts{Faulty: true, KidFaulty: c.P("kids", 0.3)})
		g.checkSame(oa, b, rb)
	})

	register("C19", "faults", 2, func(c *Ctx) {
		g := c.Rig(LoadOpts{Errors: []float64{0, 0, 0.15}[c.N("errs", 3)]})
		g.Cold = !g.L.NoCache && c.P("cold", 0.1)
		s := g.Machine("a", c.disturb("a", true))
		before := userTree(s)
		r := g.L.Start(s, RunOpts{Faulty: true, KidFaulty: c.P("kids", 0.3), Crashable: true})
		s.Run()
		g.checkWrites("C19.write", s, r, before, r.P.Sig != 0)
	})
	register("C19", "quiet", 1, func(c *Ctx) {
		g := c.Rig(LoadOpts{Errors: []float64{0, 0.15}[c.N("errs", 2)]})
		s := g.Machine("a", Quiet(c.Swarm("a")))
		before := userTree(s)
		r := g.L.Do(s, RunOpts{})
		g.checkWrites("C19.write", s, r, before, false)
	})
	// what rewrites files rewrites those it was told to
	register("C19", "rewriting", 1, func(c *Ctx) {
		g := c.Rig(LoadOpts{Errors: []float64{0, 0.05}[c.N("errs", 2)], Only: []string{"format-w", "format-fw", "format-file", "all", "all-fix", "all-nolint"}})
		s := g.Machine("a", Quiet(c.Swarm("a")))
		before := userTree(s)
		r := g.L.Do(s, RunOpts{})
		g.checkWrites("C19.write", s, r, before, false)
	})
	register("C19", "signals", 1, func(c *Ctx) {
		g := c.Rig(LoadOpts{Errors: []float64{0, 0.15}[c.N("errs", 2)]})
		s := g.Machine("a", c.Swarm("a"))
		before := userTree(s)
		r := g.L.Start(s, RunOpts{})
		at := 1 + c.N("at", 120)
		sig := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM, syscall.SIGKILL, syscall.SIGHUP}[c.N("sig", 4)]
		group := c.P("group", 0.5)
		s.K.When(func() bool { return s.K.Step >= at }, func() {
			c.Hit("c19.signal")
			targets := []*kern.Proc{r.P}
			if group {
				targets = append(targets, s.Descendants(r)...)
			}
			for _, p := range targets {
				s.K.Kill(p, sig)
			}
		})
		s.Run()
		g.checkWrites("C19.write", s, r, before, r.P.Sig != 0)
	})

	register("C07", "faults", 3, func(c *Ctx) {
		g := c.Rig(LoadOpts{Errors: []float64{0, 0, 0.3}[c.N("errs", 3)]})
		g.Cold = !g.L.NoCache && c.P("cold", 0.2)
		cfg := c.disturb("a", false)
		if c.P("nofault", 0.2) {
			cfg.Faults = nil
		}
		s := g.Machine("a", cfg)
		before := s.K.FS.Snapshot("/")
		r := g.L.Start(s, RunOpts{Faulty: true, KidFaulty: c.P("kids", 0.3)})
		g.watchEnd(s, r)
		s.Run()
		g.checkLeft(s, r, before)
	})
	register("C07", "aimed", 3, func(c *Ctx) {
		g := c.Rig(LoadOpts{Errors: []float64{0, 0, 0.3}[c.N("errs", 3)]})
		g.Cold = !g.L.NoCache && c.P("cold", 0.2)
		a := g.Machine("a", Quiet(c.Swarm("a")))
		before := a.K.FS.Snapshot("/")
		o := RunOpts{Faulty: true}
		ra := g.L.Start(a, o)
		g.watchEnd(a, ra)
		a.Run()
		g.checkLeft(a, ra, before)
		t := c.aim(a, 1+c.N("two", 2)*c.N("two2", 2), nil)
		if t == nil {
			return
		}
		b := g.Twin("b", a)
		b.K.Target = t
		rb := g.L.Start(b, o)
		g.watchEnd(b, rb)
		b.Run()
		g.checkLeft(b, rb, before)
	})
	register("C07", "tmp", 1, func(c *Ctx) {
		// a temporary file that is the output, of which nobody learns if the command fails
		g := c.Rig(LoadOpts{Only: []string{"ds-tmp"}})
		a := g.Machine("a", Quiet(c.Swarm("a")))
		before := a.K.FS.Snapshot("/")
		o := RunOpts{Faulty: true}
		ra := g.L.Start(a, o)
		g.watchEnd(a, ra)
		a.Run()
		g.checkLeft(a, ra, before)
		if lim := c.N("stdout", 5); lim < 3 {
			o.Stdout = &kern.Sink{Limit: []int{0, 1, 10}[lim], Fail: []syscall.Errno{syscall.ENOSPC, syscall.EIO}[c.N("errno", 2)]}
			c.Hit("c07.tmp_stdout")
		}
		t := c.aim(a, 1, func(e kern.EligibleOp, kind string) bool {
			return !strings.HasPrefix(kind, "unlink.")
		})
		b := g.Twin("b", a)
		if o.Stdout == nil {
			n := len(a.K.Eligible)
			if late := a.K.Eligible[max(0, n-12):]; c.P("late", 0.7) && n > 0 {
				e := late[c.N("which", len(late))]
				t = map[string]int{e.Key: 1 + c.N("fault", len(e.Kinds))}
			}
			b.K.Target = t
		}
		rb := g.L.Start(b, o)
		g.watchEnd(b, rb)
		b.Run()
		g.checkLeft(b, rb, before)
	})
	register("C07", "childkill", 2, func(c *Ctx) {
		// what the command started is ended by somebody else, at any point
		o := LoadOpts{Errors: []float64{0, 0.3}[c.N("errs", 2)]}
		if c.P("git", 0.4) {
			o.Only = []string{"break-git"}
		}
		g := c.Rig(o)
		g.Cold = !g.L.NoCache && c.P("cold", 0.2)
		s := g.Machine("a", Quiet(c.Swarm("a")))
		before := s.K.FS.Snapshot("/")
		r := g.L.Start(s, RunOpts{})
		g.watchEnd(s, r)
		sig := []syscall.Signal{syscall.SIGKILL, syscall.SIGSEGV, syscall.SIGTERM}[c.N("sig", 3)]
		skip, which := c.N("skip", 60), c.N("which", 3)
		seen := 0
		s.K.When(func() bool {
			n := 0
			for _, p := range r.P.Kids {
				if n == which && !p.Dead {
					seen++
				}
				n++
			}
			return seen > skip
		}, func() {
			if p := r.P.Kids[which]; !p.Dead {
				c.Hit("c07.childkill." + p.Prog)
				s.K.Kill(p, sig)
			}
		})
		s.Run()
		g.checkLeft(s, r, before)
	})
	register("C07", "descriptors", 1, func(c *Ctx) {
		only := []string{"compile", "lint", "lint-diff", "format", "format-l", "format-w", "generate", "all", "ds", "ds-json", "break-git", "break-out", "inspect", "files", "grpc", "grpc-data", "break-json", "ds-json-out", "all-nolint", "all-fix"}
		g := c.Rig(LoadOpts{Only: only, Proj: &ProjOpts{MaxDirs: 10, MaxFiles: 2, Unformatted: 0.5, NoRoot: true}})
		few := g.L
		// the same command on the first directory only
		keep := Dirs(few.P.Selected("."))
		if len(keep) < 4 {
			return
		}
		one := *g.L
		small := *g.L.P
		small.Files = map[string]string{}
		for f, t := range g.L.P.Files {
			if under(f, keep[0]) || strings.HasPrefix(f, "rpc/") {
				small.Files[f] = t
			}
		}
		one.P = &small
		peak := map[string]int{}
		for _, m := range []string{"many", "one"} {
			l := g.L
			if m == "one" {
				l = &one
			}
			gm := &Rig{C: c, L: l, Warm: g.Warm, Set: g.Set}
			cfg := Plain()
			cfg.NumCPU = 1
			s := gm.Machine(m, cfg)
			// everything else, as in imports of the other directories, is left out
			r := l.Do(s, RunOpts{NumCPU: 1})
			if !r.OK() && m == "one" {
				return // an import went missing
			}
			peak[m] = r.P.Opens
		}
		c.Hit("c07.descriptors_compared")
		if peak["many"] > peak["one"]+3 {
			c.Violate("C07.descriptors", "%s holds %d files open at once with %d directories, but %d with one", strings.Join(g.L.Args, " "), peak["many"], len(keep), peak["one"])
		}
	})
	register("C07", "signals", 2, func(c *Ctx) {
		g := c.Rig(LoadOpts{Errors: []float64{0, 0.3}[c.N("errs", 2)]})
		g.Cold = !g.L.NoCache && c.P("cold", 0.2)
		s := g.Machine("a", Quiet(c.Swarm("a")))
		before := s.K.FS.Snapshot("/")
		r := g.L.Start(s, RunOpts{})
		g.watchEnd(s, r)
		sig := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[c.N("sig", 2)]
		skip := c.N("skip", 60)
		s.K.When(func() bool {
			for _, p := range r.P.Kids {
				if p.Prog == "protoc" && !p.Dead && p.Argv[len(p.Argv)-1] != "--version" {
					skip--
					return skip < 0
				}
			}
			return false
		}, func() {
			c.Hit("c07.signal")
			s.K.Kill(r.P, sig)
		})
		s.Run()
		g.checkLeft(s, r, before)
	})

	register("C08", "crash", 3, func(c *Ctx) { runRewrite(c, "crash") })
	register("C08", "faults", 3, func(c *Ctx) { runRewrite(c, "fault") })
	register("C08", "full", 1, func(c *Ctx) { runRewrite(c, "full") })
	register("C08", "power", 2, func(c *Ctx) { runRewrite(c, "power") })
	register("C08", "quiet", 1, func(c *Ctx) { runRewrite(c, "") })

	register("C13", "stdout", 3, func(c *Ctx) {
		g := c.Rig(LoadOpts{Errors: []float64{0, 0.2}[c.N("errs", 2)]})
		a := g.Machine("a", Quiet(c.Swarm("a")))
		ra := g.L.Do(a, RunOpts{})
		g.checkSet(a, ra)
		n := len(ra.Out.Data)
		if n == 0 {
			return
		}
		lim := []int{0, c.N("lim", n), n - 1}[c.N("limkind", 3)]
		b := g.Twin("b", a)
		sink := &kern.Sink{Limit: lim, Fail: []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EPIPE}[c.N("errno", 3)]}
		rb := g.L.Do(b, RunOpts{Stdout: sink})
		c.Hit("c13.sink_failed")
		if sink.Lost && rb.OK() {
			c.Violate("C13.stdout", "standard output failed (%s) after %d of %d bytes, but %s", sink.Fail, lim, n, rb.Desc())
		}
	})
	register("C13", "file", 3, func(c *Ctx) {
		g := c.Rig(LoadOpts{Only: []string{"ds-out", "ds-json-out", "ds-tmp", "break-out", "create", "create-pkg", "init", "init-dir", "init-doc", "format-w", "format-fw", "all", "generate", "cache-update"}})
		g.Cold = g.L.Name == "cache-update"
		a := g.Machine("a", Quiet(c.Swarm("a")))
		o := RunOpts{Faulty: true, KidFaulty: true}
		ra := g.L.Do(a, o)
		g.checkSet(a, ra)
		oa := g.outcome(a, ra)
		if !ra.OK() {
			return
		}
		t := c.aim(a, 1, func(e kern.EligibleOp, kind string) bool {
			return strings.HasPrefix(kind, "write.") || kind == "close.EIO" || kind == "sync.EIO" || kind == "rename.EIO" || strings.HasPrefix(kind, "truncate.")
		})
		if t == nil {
			return
		}
		b := g.Twin("b", a)
		b.K.Target = t
		opened := map[string]bool{}
		b.K.FS.OnMutate = func(p *kern.Proc, kind, path string, n *kern.Inode) { opened[path] = true }
		rb := g.L.Do(b, o)
		if !rb.OK() {
			return
		}
		ob := g.outcome(b, rb)
		if d := oa.diff(ob); d != "" {
			c.Violate("C13.file", "%s although %s; %s", rb.Desc(), faultsOf(b), d)
		}
		for _, e := range b.K.Log {
			if e.Fault == "" || e.P.Prog != "prototool" {
				continue
			}
			target := e.Arg
			if (strings.HasPrefix(e.Fault, "write.") || e.Fault == "close.EIO" && opened[target]) && (g.L.mayWrite(target) || g.L.Tmp && under(target, "/tmp") && target == strings.TrimSpace(rb.Stdout())) {
				c.Violate("C13.file", "%s of the output file %s failed, but %s", e.Fault, target, rb.Desc())
			}
		}
	})
	register("C13", "fulldisk", 1, func(c *Ctx) {
		g := c.Rig(LoadOpts{Only: []string{"ds-out", "ds-json-out", "break-out", "create", "create-pkg", "init", "init-doc", "format-w", "format-fw", "all", "all-fix", "generate", "ds-tmp"}})
		a := g.Machine("a", Quiet(c.Swarm("a")))
		ra := g.L.Do(a, RunOpts{})
		g.checkSet(a, ra)
		oa := g.outcome(a, ra)
		if !ra.OK() {
			return
		}
		b := g.Twin("b", a)
		dev := []string{"/work", "/tmp"}[c.N("dev", 2)]
		b.K.FS.Mounts = []string{dev}
		for _, e := range b.K.FS.Tree(dev) {
			e.Node.Dev = dev
		}
		b.K.FS.Lookup(dev).Dev = dev
		used := b.K.FS.Used(dev)
		b.K.FS.Cap[dev] = used + int64(c.N("room", 1500))
		rb := g.L.Do(b, RunOpts{})
		if rb.OK() {
			if d := oa.diff(g.outcome(b, rb)); d != "" {
				c.Violate("C13.file", "%s with only %d bytes free on %s; %s", rb.Desc(), b.K.FS.Cap[dev]-used, dev, d)
			}
		} else {
			c.Hit("c13.disk_full")
		}
	})

	register("C18", "faults", 2, func(c *Ctx) { runAll(c, "fault") })
	register("C18", "aimed", 3, func(c *Ctx) { runAll(c, "aim") })
	register("C18", "signal", 2, func(c *Ctx) { runAll(c, "signal") })
	register("C18", "quiet", 1, func(c *Ctx) { runAll(c, "") })
}

func (g *Rig) checkSame(oa outcome, b *Sim, rb *Run) {
	if !rb.OK() {
		return
	}
	if len(b.K.Fired) == 0 {
		return
	}
	g.C.Hit("c16.succeeded_despite_fault")
	ob := g.outcome(b, rb)
	for _, e := range b.K.Log {
		// a temporary that could not be removed is not an answer
		p := e.Arg
		if !strings.HasPrefix(p, "/") {
			p = path.Join(e.P.Cwd, p)
		}
		if strings.HasPrefix(e.Fault, "unlink.") && oa.tree[p] == "" {
			delete(ob.tree, p)
		}
	}
	if d := oa.diff(ob); d != "" {
		g.C.Violate("C16.answer", "%s although %s; %s", rb.Desc(), faultsOf(b), d)
	}
}

// watchEnd records what still runs when the command ends.
func (g *Rig) watchEnd(s *Sim, r *Run) {
	done := false
	s.K.OnStep = func() {
		if done || !r.P.Dead {
			return
		}
		done = true
		if !r.P.Exited() {
			return
		}
		for _, p := range s.Descendants(r) {
			// what a child that was killed left running is not within reach of the command
			if p.Parent == r.P && !p.Dead {
				s.K.Violate("child|%s while its child %s (%s) was still running; faults: %s", r.Desc(), p.Label, clip(strings.Join(p.Argv, " "), 200), faultsOf(s))
			}
		}
	}
}

func (g *Rig) checkLeft(s *Sim, r *Run, before map[string]string) {
	c := g.C
	unlinkFault := false
	for k := range s.K.Fired {
		if strings.HasPrefix(k, "unlink.") {
			unlinkFault = true
		}
	}
	// nothing that was there before is removed, except what the command replaces or is asked to delete
	for _, m := range s.Muts {
		if (m.Kind == "unlink" || m.Kind == "rmdir") && before[m.Path] != "" && !under(m.Path, DefaultCache) {
			c.Violate("C07.removed", "%s removed %s, which it did not create; faults: %s", strings.Join(r.Args, " "), m.Path, faultsOf(s))
			return
		}
	}
	if !r.P.Exited() {
		return
	}
	if unlinkFault {
		return
	}
	// removing a directory needs to read it
	for k := range s.K.Fired {
		if strings.HasPrefix(k, "readdir.") || strings.HasPrefix(k, "open.") || strings.HasPrefix(k, "stat.") {
			for _, e := range s.K.Log {
				if e.Fault == k && under(e.Arg, "/tmp") {
					return
				}
			}
		}
	}
	tmpOut := ""
	if g.L.Tmp && r.OK() {
		tmpOut = strings.TrimSpace(r.Stdout())
	}
	for _, d := range Diff(before, s.K.FS.Snapshot("/")) {
		p := d[strings.IndexByte(d, ' ')+1:]
		if strings.HasPrefix(d, "added ") && under(p, "/tmp") && p != tmpOut {
			c.Violate("C07.left", "%s and leaves %s behind; faults: %s", r.Desc(), p, faultsOf(s))
			return
		}
	}
}

func runRewrite(c *Ctx, mode string) {
	g := c.Rig(LoadOpts{Only: []string{"format-w", "format-fw", "all", "format-w", "format-file", "all-file", "all-fix", "all-nolint"}, Proj: &ProjOpts{Unformatted: 0.7, MaxDirs: 4, MaxFiles: 3, Plugins: 0}})
	l := g.L
	var names []string
	for f := range l.P.Files {
		names = append(names, f)
	}
	sort.Strings(names)
	perms := map[string]int{}
	links := map[string]string{}
	for i, f := range names {
		perms[f] = []int{0644, 0600, 0664, 0755, 0444}[c.N("perm/"+f, 5)]
		if c.P("link/"+f, 0.15) {
			links[f] = []string{fmt.Sprintf("/work/shared/real%d.txt", i), fmt.Sprintf(".real%d", i)}[c.N("linkto/"+f, 2)]
		}
		if c.P("bom/"+f, 0.1) {
			// many bytes, so that writing takes several operations
			l.P.Files[f] += strings.Repeat("\n// filler to make the file long enough for several writes\n", 200)
		}
	}
	put := func(s *Sim) *Sim {
		for _, f := range names {
			p := Work + "/" + f
			if t := links[f]; t != "" {
				n := s.K.FS.Lookup(p)
				data := n.Data
				dir := s.K.FS.Lookup(path.Dir(p))
				delete(dir.Kids, path.Base(p))
				real := t
				if !strings.HasPrefix(t, "/") {
					real = path.Join(path.Dir(p), t)
				}
				s.K.FS.Put(real, data, 0644)
				s.K.FS.Symlink(t, p)
			}
			s.K.FS.LookupFollow(p).Mode = (s.K.FS.LookupFollow(p).Mode &^ 0777) | toMode(perms[f])
		}
		return s
	}
	a := put(g.Machine("a", Quiet(c.Swarm("a"))))
	o := RunOpts{Faulty: true, Crashable: true}
	old := map[string]string{}
	for _, f := range names {
		b, _ := a.K.FS.Get(Work + "/" + f)
		old[f] = string(b)
	}
	ra := l.Do(a, o)
	oa := g.outcome(a, ra)
	want := map[string]string{}
	for _, f := range names {
		b, _ := a.K.FS.Get(Work + "/" + f)
		want[f] = string(b)
		if want[f] != old[f] {
			c.Hit("c08.rewritten")
		}
	}
	watch := func(s *Sim, r *Run) {
		inner := s.K.OnEvent
		seen := 0
		s.K.OnEvent = func(e *kern.Event) {
			if inner != nil {
				inner(e)
			}
			if len(s.Muts) == seen {
				return
			}
			seen = len(s.Muts)
			for _, f := range names {
				b, ok := s.K.FS.Get(Work + "/" + f)
				if !ok {
					s.K.Violate("lost|%s: after %s %s, %s does not exist", strings.Join(r.Args, " "), e.Kind, e.Arg, f)
				} else if string(b) != old[f] && string(b) != want[f] {
					s.K.Violate("torn|%s: after %s %s %s, %s holds %d bytes that are neither its old content (%d bytes) nor the formatted one (%d bytes): a crash now loses it; faults: %s",
						strings.Join(r.Args, " "), e.Kind, e.Arg, e.Fault, f, len(b), len(old[f]), len(want[f]), faultsOf(s))
				}
			}
		}
	}
	check := func(s *Sim, r *Run) {
		for _, f := range names {
			p := Work + "/" + f
			n := s.K.FS.Lookup(p)
			if n == nil {
				c.Violate("C08.lost", "%s: %s is gone; faults: %s", r.Desc(), f, faultsOf(s))
				continue
			}
			if links[f] != "" && n.Target != links[f] {
				c.Violate("C08.link", "%s: %s was a symbolic link to %s and is not any more", r.Desc(), f, links[f])
			}
			if n = s.K.FS.LookupFollow(p); n != nil && n.Mode.Perm() != toMode(perms[f]) {
				c.Violate("C08.perm", "%s: %s had permissions %o and now has %o; faults: %s", r.Desc(), f, perms[f], n.Mode.Perm(), faultsOf(s))
			}
			if n != nil && r.OK() && ra.OK() && string(n.Data) != want[f] {
				c.Violate("C08.exit", "%s, but %s does not hold the formatted content; faults: %s", r.Desc(), f, faultsOf(s))
			}
		}
	}
	check(a, ra)
	_ = oa
	var b *Sim
	switch mode {
	case "":
		b = put(g.Machine("b", Quiet(c.Swarm("b"))))
	case "crash":
		t := c.aimCrash(a, func(e kern.EligibleOp) bool {
			return strings.HasPrefix(e.Arg, Work) || strings.HasPrefix(e.Arg, "/work/shared")
		})
		if t == nil {
			return
		}
		b = put(g.Twin("b", a))
		b.K.Target = t
	case "fault":
		t := c.aim(a, 1+c.N("two", 2), func(e kern.EligibleOp, kind string) bool {
			return strings.HasPrefix(e.Arg, Work) || strings.HasPrefix(e.Arg, "/work/shared")
		})
		if t == nil {
			return
		}
		b = put(g.Twin("b", a))
		b.K.Target = t
	case "full":
		b = put(g.Twin("b", a))
		b.K.FS.Mounts = []string{"/work"}
		b.K.FS.Lookup("/work").Dev = "/work"
		for _, e := range b.K.FS.Tree("/work") {
			e.Node.Dev = "/work"
		}
		b.K.FS.Cap["/work"] = b.K.FS.Used("/work") + int64(c.N("room", 3000))
	}
	if mode == "power" {
		b = put(g.Twin("b", a))
		off := c.blackout("power", a, b)
		rb := l.Start(b, o)
		watch(b, rb)
		b.Run()
		off()
		for _, f := range names {
			x, ok := b.K.FS.Get(Work + "/" + f)
			if !ok {
				c.Violate("C08.lost", "the power failed while %s ran, and then %s does not exist", strings.Join(rb.Args, " "), f)
			} else if string(x) != old[f] && string(x) != want[f] {
				c.Violate("C08.torn", "the power failed while %s ran (%s), and then %s holds %d bytes that are neither its old content (%d bytes) nor the formatted one (%d bytes)",
					strings.Join(rb.Args, " "), rb.P.Desc(), f, len(x), len(old[f]), len(want[f]))
			}
		}
		return
	}
	rb := l.Start(b, o)
	watch(b, rb)
	b.Run()
	check(b, rb)
}

// blackout makes the power fail on s after one of the changes that a made on its file system, or when everything has
// ended; the returned function has to be called then.
func (c *Ctx) blackout(key string, a, s *Sim) (off func()) {
	n := c.N(key, len(a.Muts)+1) + len(s.Muts) + 1
	s.K.FS.Journal()
	done := false
	cut := func() {
		if !done {
			done = true
			s.K.LosePower()
		}
	}
	s.K.When(func() bool { return !done && len(s.Muts) >= n }, cut)
	return cut
}

// runAll judges the phases of `all`.
func runAll(c *Ctx, mode string) {
	g := c.Rig(LoadOpts{Only: []string{"all", "all-nofmt", "all-fix", "all-nolint", "all", "all-file"}, Proj: &ProjOpts{Errors: []float64{0, 0, 0.15}[c.N("errs", 3)], Unformatted: 0.5,
		LintFail: []float64{0, 0.3}[c.N("lf", 2)], Plugins: 3, MaxDirs: 4, MaxFiles: 2, GenOdd: c.P("odd", 0.4), Silent: true}})
	o := RunOpts{Faulty: true, KidFaulty: c.P("kids", 0.4)}
	a := g.Machine("a", Quiet(c.Swarm("a")))
	ra := g.L.Do(a, o)
	oa := g.outcome(a, ra)
	g.checkAll(a, ra, 0)
	if c.P("phases", 0.5) {
		g.checkPhases(a, ra)
	}
	var b *Sim
	switch mode {
	case "aim":
		t := c.aim(a, 1, func(e kern.EligibleOp, kind string) bool { return !strings.HasPrefix(kind, "stdout.") })
		if t == nil {
			return
		}
		b = g.Twin("b", a)
		b.K.Target = t
	case "fault":
		b = g.Machine("b", c.disturb("b", false))
	case "signal":
		b = g.Twin("b", a)
	default:
		b = g.Machine("b", Quiet(c.Swarm("b")))
	}
	rb := g.L.Start(b, o)
	sigStep := 0
	if mode == "signal" {
		skip := c.N("skip", 40)
		sig := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[c.N("sig", 2)]
		b.K.When(func() bool {
			for _, p := range rb.P.Kids {
				if p.Prog == "protoc" && !p.Dead && p.Argv[len(p.Argv)-1] != "--version" {
					skip--
					return skip < 0
				}
			}
			return false
		}, func() {
			c.Hit("c18.signal")
			sigStep = b.K.Step
			b.K.Kill(rb.P, sig)
		})
	}
	b.Run()
	g.checkAll(b, rb, sigStep)
	if rb.OK() {
		if d := oa.diff(g.outcome(b, rb)); d != "" {
			c.Violate("C18.exit", "%s; without disturbance, %s; faults: %s", rb.Desc(), d, faultsOf(b))
		}
	}
}

// checkPhases compares an undisturbed run with the phases run one by one afterwards.
func (g *Rig) checkPhases(s *Sim, r *Run) {
	c := g.C
	var rest, fix []string
	format, lint := true, true
	for _, x := range g.L.Args[1:] {
		switch x {
		case "--fix", "-f":
			fix = []string{"-f"}
		case "--disable-format":
			format = false
		case "--disable-lint":
			lint = false
		default:
			rest = append(rest, x)
		}
	}
	do := func(args ...string) *Run {
		args = append(args, rest...)
		o := RunOpts{Cwd: g.L.Cwd, Env: g.L.Env}
		return s.Do(args[0], o, args...)
	}
	failed := ""
	rc := do("compile")
	if !rc.OK() {
		failed = "compile"
	} else {
		if format {
			if rf := do(append([]string{"format", "-l"}, fix...)...); !rf.OK() && (r.OK() || lint) {
				c.Violate("C18.format", "%s compiles, but afterwards %s", r.Desc(), rf.Desc())
			}
		}
		if lint {
			if rl := do("lint"); !rl.OK() {
				failed = "lint"
			}
		}
	}
	if failed != "" && r.OK() {
		c.Violate("C18.exit", "%s, but %s fails", r.Desc(), failed)
	}
	if failed == "" && !r.OK() && !anyPluginFailed(s, r) {
		c.Violate("C18.exit", "%s, but every phase succeeds on its own", r.Desc())
	}
	c.Hit("c18.phases")
}

func anyPluginFailed(s *Sim, r *Run) bool {
	for _, pr := range s.ProtocRuns(r) {
		if isGen(pr.P) && protocFailed(pr.P) {
			return true
		}
	}
	return false
}

func isGen(p *kern.Proc) bool {
	for _, a := range p.Argv {
		if strings.HasPrefix(a, "--") && strings.Contains(a, "_out=") && !strings.HasPrefix(a, "--descriptor_set_out") {
			return true
		}
	}
	return false
}

// protocFailed tells whether a protoc run failed, was killed or reported anything.
func protocFailed(p *kern.Proc) bool {
	return p.Dead && (p.Sig != 0 || p.Code != 0 || p.Info["stderr"] != "")
}

func (g *Rig) checkAll(s *Sim, r *Run, sigStep int) {
	c := g.C
	// order of events: protoc runs that ended, source rewrites, plugin runs
	firstWrite, firstGen := -1, -1
	for _, m := range s.Muts {
		if m.P == r.P && strings.HasSuffix(m.Path, ".proto") && under(m.Path, Work) {
			firstWrite = m.Step
			break
		}
	}
	spawn := map[*kern.Proc]int{}
	for _, e := range s.K.Log {
		if e.Kind == "start" {
			spawn[e.P] = e.Step
		}
	}
	for _, pr := range s.ProtocRuns(r) {
		if st, ok := spawn[pr.P]; ok && isGen(pr.P) && (firstGen < 0 || st < firstGen) {
			firstGen = st
		}
	}
	end := func(p *kern.Proc) int {
		last := 0
		for _, e := range s.K.Log {
			if e.P == p {
				last = e.Step
			}
		}
		return last
	}
	later := firstWrite
	if later < 0 || firstGen >= 0 && firstGen < later {
		later = firstGen
	}
	first := map[string]bool{}
	for _, pr := range s.ProtocRuns(r) {
		if isGen(pr.P) {
			if protocFailed(pr.P) && r.OK() {
				c.Violate("C18.generate", "%s, but %s %s; faults: %s", r.Desc(), clip(strings.Join(pr.Args, " "), 200), pr.P.Desc(), faultsOf(s))
			}
			continue
		}
		if !protocFailed(pr.P) {
			fs := append([]string(nil), pr.Files...)
			sort.Strings(fs)
			if later < 0 || end(pr.P) < later {
				first[strings.Join(fs, " ")] = true
			}
			continue
		}
		if r.OK() {
			c.Violate("C18.compile", "%s, but compiling %s failed: %s; faults: %s", r.Desc(), pr.Files, pr.P.Desc(), faultsOf(s))
		}
		e := end(pr.P)
		if firstWrite > e {
			c.Violate("C18.compile", "compiling %s failed (%s), but sources were rewritten afterwards; faults: %s", pr.Files, pr.P.Desc(), faultsOf(s))
		}
		if firstGen > e {
			c.Violate("C18.compile", "compiling %s failed (%s), but plugins ran afterwards; faults: %s", pr.Files, pr.P.Desc(), faultsOf(s))
		}
	}
	// nothing is written before everything was compiled
	if later >= 0 {
		byDir := map[string][]string{}
		for _, f := range g.L.P.Selected(g.L.Sub) {
			f = Work + "/" + f
			byDir[path.Dir(f)] = append(byDir[path.Dir(f)], f)
		}
		for _, d := range keysOf(byDir) {
			sort.Strings(byDir[d])
			if !first[strings.Join(byDir[d], " ")] {
				c.Violate("C18.compile", "%s: a source was rewritten or a plugin ran although %s was not compiled before; faults: %s", strings.Join(r.Args, " "), d, faultsOf(s))
			}
		}
	}
	if firstWrite >= 0 && firstGen >= 0 {
		for _, m := range s.Muts {
			if m.P == r.P && strings.HasSuffix(m.Path, ".proto") && under(m.Path, Work) && m.Step > firstGen {
				c.Violate("C18.order", "%s was rewritten after plugins started", m.Path)
				break
			}
		}
	}
	// a failed rewrite
	for _, e := range s.K.Log {
		if e.P == r.P && e.Fault != "" && strings.HasPrefix(e.Fault, "write.") && under(e.Arg, Work) && firstGen > e.Step {
			c.Violate("C18.format", "%s of %s failed, but plugins ran afterwards", e.Fault, e.Arg)
		}
	}
	if r.OK() {
		// every phase covers everything
		done := map[string]int{}
		for _, pr := range s.ProtocRuns(r) {
			fs := append([]string(nil), pr.Files...)
			sort.Strings(fs)
			k := strings.Join(fs, " ")
			if isGen(pr.P) {
				done["gen "+k]++
			} else {
				done[k]++
			}
		}
		byDir := map[string][]string{}
		for _, f := range g.L.P.Selected(g.L.Sub) {
			f = Work + "/" + f
			byDir[path.Dir(f)] = append(byDir[path.Dir(f)], f)
		}
		for _, d := range keysOf(byDir) {
			sort.Strings(byDir[d])
			k := strings.Join(byDir[d], " ")
			if done[k] == 0 {
				c.Violate("C18.compile", "%s, but %s was not compiled; faults: %s", r.Desc(), d, faultsOf(s))
			}
			if n := len(g.L.P.Plugins); done["gen "+k] < n {
				c.Violate("C18.generate", "%s, but for %s only %d of %d plugins ran; faults: %s", r.Desc(), d, done["gen "+k], n, faultsOf(s))
			}
		}
	}
	if sigStep > 0 {
		for _, m := range s.Muts {
			if m.P == r.P && m.Step > sigStep && under(m.Path, Work) && !(m.Kind == "mkdir") {
				c.Violate("C18.signal", "%s: interrupted while protoc ran, but afterwards %s %s", r.Desc(), m.Kind, m.Path)
				break
			}
		}
	}
	_ = time.Second
}
