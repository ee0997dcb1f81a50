//go:build go1.25

package harness

import (
	"fmt"
	"path"
	"slices"
	"sort"
	"strings"

	"verif.local/sim/kern"
)

// gens is a generating command and what it has to do.
type gens struct {
	g     *Rig
	want  []string          // selected files, relative to the root
	dirs  []string          // their directories, absolute
	ideal map[string]string // the tree if every plugin works, by path
	old   bool              // there are older generated files
}

// outPath is where a plugin run has to write: a directory, or a file if the plugin has a suffix.
func (x *gens) outPath(pl Plug, dir string) string {
	p := x.g.L.P
	o := p.OutDir(pl)
	if pl.Suffix == "" {
		return o
	}
	rel := strings.TrimPrefix(strings.TrimPrefix(dir, p.Root), "/")
	return path.Join(o, rel, path.Base(path.Join(p.Root, rel))+"."+pl.Suffix)
}

// param is what the configuration asks to give to a plugin. For Go plugins this says where the files of the other
// directories are generated, then where the well-known types are, then what the configuration adds.
type param struct{ head, wkt, tail string }

func (p param) String() string { return fmt.Sprintf("%q…%q…%q", p.head, p.wkt, p.tail) }

func (p param) ok(s string) bool {
	if p.wkt == "" {
		return s == p.head
	}
	i := strings.Index(s, p.wkt)
	return strings.HasPrefix(s, p.head) && strings.HasSuffix(s, p.tail) && i >= len(p.head) && i+len(p.wkt) <= len(s)-len(p.tail)
}

func (x *gens) param(pl Plug, dir string) param {
	if pl.Type == "" {
		return param{head: pl.Flags}
	}
	p := x.g.L.P
	var mods []string
	for _, f := range p.Selected(".") {
		if path.Dir(path.Join(p.Root, f)) != dir {
			mods = append(mods, "M"+f+"="+path.Join("example.com/p", relTo(p.Root, p.OutDir(pl)), path.Dir(f)))
		}
	}
	sort.Strings(mods)
	if pl.Flags != "" {
		mods = append([]string{pl.Flags}, mods...)
	}
	w := param{head: strings.Join(mods, ","), wkt: "Mgoogle/protobuf/timestamp.proto=github.com/golang/protobuf/ptypes/timestamp"}
	if pl.Type == "gogo" {
		w.wkt = "Mgoogle/protobuf/timestamp.proto=github.com/gogo/protobuf/types"
	}
	if w.head != "" {
		w.head += ","
	}
	if strings.Contains(p.Config, "extra_modifiers") {
		w.tail = ",Mx/one.proto=example.com/x,My/two.proto=example.com/y,Mz/three.proto=example.com/z"
	}
	return w
}

// outArg finds the output flag of a protoc run.
func outArg(args []string) (name, param, out string) {
	for _, a := range args {
		if strings.HasPrefix(a, "--") {
			if i := strings.Index(a, "_out="); i > 0 {
				name, out = a[2:i], a[i+5:]
				if j := strings.LastIndexByte(out, ':'); j >= 0 {
					param, out = out[:j], out[j+1:]
				}
				return
			}
		}
	}
	return
}

// ready watches that the output directories exist when protoc starts.
func (x *gens) ready(s *Sim, r *Run) {
	s.K.OnEvent = func(e *kern.Event) {
		if e.Kind != "exec" || e.P != r.P || !strings.HasPrefix(e.Res, "pid") {
			return
		}
		name, _, out := outArg(strings.Fields(e.Arg))
		if name == "" {
			return
		}
		for _, pl := range x.g.L.P.Plugins {
			if pl.Name == name && pl.Suffix != "" {
				out = path.Dir(out)
				break
			}
		}
		if n := s.K.FS.LookupFollow(out); n == nil || !n.IsDir() {
			s.K.Violate("outdir|%s started %s although the output directory %s does not exist", strings.Join(r.Args, " "), clip(e.Arg, 300), out)
		}
	}
}

// lines is what a protoc run reported.
func (x *gens) lines(pr *ProtocRun) []string {
	var lines []string
	for _, l := range significant(pr.Stderr) {
		if x.g.L.P.Unused && unusedLine(l) {
			continue
		}
		lines = append(lines, l)
	}
	return lines
}

// judge checks a command that reached its end without any injected fault.
func (x *gens) judge(s *Sim, r *Run) {
	c, p := x.g.C, x.g.L.P
	if !r.P.Exited() {
		return
	}
	all := s.ProtocRuns(r)
	by := map[string][]*ProtocRun{}
	of := map[int][]*ProtocRun{} // by configured plugin
	var plain []*ProtocRun
	for _, pr := range all {
		name, _, out := outArg(pr.Args)
		if name == "" {
			plain = append(plain, pr)
			continue
		}
		by[name] = append(by[name], pr)
		which := -1
		for i, pl := range p.Plugins {
			// a plugin that is configured more than once is told by its output
			if pl.Name == name && (which < 0 || x.outPath(pl, path.Dir(pr.Files[0])) == out) {
				which = i
			}
		}
		of[which] = append(of[which], pr)
	}
	absent := false // a configured plugin path that does not exist
	names := map[string]bool{}
	for _, pl := range p.Plugins {
		names[pl.Name] = true
		if pl.Missing && pl.Path != "" {
			absent = true
			compiled := true
			for _, pr := range plain {
				if pr.P.Code != 0 || len(x.lines(pr)) > 0 {
					compiled = false
				}
			}
			if r.OK() || compiled && !strings.Contains(r.Stdout(), pl.Path) {
				c.Violate("C17.missing", "the plugin %s does not exist, but %s", pl.Path, r.Desc())
			}
		}
	}
	if absent {
		if len(by) > 0 {
			c.Hit("c17.started_with_missing_plugin")
		}
		return
	}
	if len(p.Plugins) == 0 && strings.HasPrefix(x.g.L.Name, "all") {
		return // C18 knows about the phases
	}
	if len(p.Plugins) == 0 || strings.HasPrefix(x.g.L.Name, "all") {
		checkCoverage(c, "C17.once", r, plain, p.Root, x.want)
		for _, pr := range plain {
			if pr.P.Code != 0 || len(x.lines(pr)) > 0 {
				if len(by) > 0 {
					c.Violate("C17.once", "%s: plugins ran although compiling failed", r.Desc())
				}
				return
			}
		}
	} else if len(plain) > 0 {
		c.Violate("C17.once", "%s ran protoc without a plugin: %s", strings.Join(r.Args, " "), plain[0].Args)
	}
	for n := range by {
		if !names[n] {
			c.Violate("C17.once", "%s ran the plugin %s, which is not configured", strings.Join(r.Args, " "), n)
		}
	}
	for i, pl := range p.Plugins {
		checkCoverage(c, "C17.once", r, of[i], p.Root, x.want)
		for _, pr := range of[i] {
			_, param, out := outArg(pr.Args)
			if want := x.outPath(pl, path.Dir(pr.Files[0])); out != want {
				c.Violate("C17.output", "%s: plugin %s for %s was told to write to %s instead of %s", strings.Join(r.Args, " "), pl.Name, pr.Files, out, want)
			}
			if want := x.param(pl, path.Dir(pr.Files[0])); !want.ok(param) {
				c.Violate("C17.output", "%s: plugin %s for %s got the flags %q instead of %s", strings.Join(r.Args, " "), pl.Name, pr.Files, param, want)
			}
			for f, on := range map[string]bool{"--include_imports": pl.Imports, "--include_source_info": pl.Source} {
				if has := slices.Contains(pr.Args, f); has != on {
					c.Violate("C17.output", "%s: plugin %s for %s ran with %s: %v, configured: %v", strings.Join(r.Args, " "), pl.Name, pr.Files, f, has, on)
				}
			}
			for _, k := range pr.P.Kids {
				if k.Prog == "plugin" && pl.Path != "" && k.Argv[0] != pl.Path {
					c.Violate("C17.output", "%s: plugin %s for %s is %s instead of %s", strings.Join(r.Args, " "), pl.Name, pr.Files, k.Argv[0], pl.Path)
				}
			}
		}
	}
	// nothing is made for what has not been asked for
	asked := map[string]bool{}
	for _, pl := range p.Plugins {
		for d := p.OutDir(pl); d != "/"; d = path.Dir(d) {
			asked[d] = true
		}
		for _, f := range x.want {
			for d := path.Dir(x.outPath(pl, path.Dir(path.Join(p.Root, f)))); pl.Suffix != "" && d != "/"; d = path.Dir(d) {
				asked[d] = true
			}
		}
	}
	for _, m := range s.Muts {
		// without an ideal, the output is a link
		if x.ideal != nil && m.P == r.P && m.Kind == "mkdir" && !asked[m.Path] && !under(m.Path, "/tmp") && !under(m.Path, DefaultCache) {
			c.Violate("C17.output", "%s made the directory %s, which is not the output of a plugin for what was asked for", strings.Join(r.Args, " "), m.Path)
		}
	}
	// the verdict
	var rep []string
	named := map[string]int{}
	bad := ""
	silent := false // failed without a report, which leaves no room for other reports
	for _, pr := range all {
		name, _, _ := outArg(pr.Args)
		lines := x.lines(pr)
		rep = append(rep, lines...)
		if pr.P.Code != 0 || pr.P.Sig != 0 || len(lines) > 0 {
			silent = silent || len(lines) == 0
			bad = fmt.Sprintf("%s (%s): %s", name, strings.Join(pr.Files, " "), strings.Join(lines, " / "))
			for _, l := range lines {
				if i := strings.Index(l, "protoc-gen-"+name); i >= 0 {
					named[name]++
					break
				}
			}
		}
	}
	if bad != "" {
		c.Hit("c17.plugin_failed")
	}
	if bad != "" && r.OK() {
		c.Violate("C17.exit", "a generation failed: %s; but %s", bad, r.Desc())
		return
	}
	if bad == "" && !r.OK() && !strings.HasPrefix(x.g.L.Name, "all") {
		c.Violate("C17.exit", "all %d plugin runs succeeded and were silent, but %s", len(all), r.Desc())
		return
	}
	if bad == "" {
		c.Hit("c17.ok")
	}
	for n, k := range named {
		if silent {
			break
		}
		if g := strings.Count(r.Stdout(), "protoc-gen-"+n); g < k {
			c.Violate("C17.named", "plugin %s failed %d times, but it is named %d times; %s", n, k, g, r.Desc())
		}
	}
	if a, b := len(rep), len(significant(r.Stdout())); bad != "" && !silent && a != b && x.g.L.File == "" {
		c.Violate("C17.named", "protoc and its plugins reported %d failures, but %d lines were printed; reported:\n%s\nprinted:\n%s", a, b, strings.Join(rep, "\n"), r.Stdout())
	}
	x.files(s, r, all)
}

// files checks that what the successful runs generated is right, whatever the others did.
func (x *gens) files(s *Sim, r *Run, all []*ProtocRun) {
	c := x.g.C
	if x.ideal == nil {
		return
	}
	have := map[string]string{}
	for _, pr := range all {
		if pr.P.Code != 0 || pr.P.Sig != 0 {
			continue
		}
		name, _, out := outArg(pr.Args)
		if name == "" {
			continue
		}
		for _, pl := range x.g.L.P.Plugins {
			if pl.Name != name {
				continue
			}
			if pl.Suffix != "" {
				have[out] = name
				continue
			}
			for _, f := range pr.Files {
				have[path.Join(out, strings.TrimPrefix(f, x.g.L.P.Root+"/")+"."+name+".txt")] = name
			}
		}
	}
	var ps []string
	for f := range have {
		ps = append(ps, f)
	}
	sort.Strings(ps)
	for _, f := range ps {
		b, ok := s.K.FS.Get(f)
		want, known := x.ideal[f]
		if !known {
			continue
		}
		c.Hit("c17.file_checked")
		if !ok || string(b) != want {
			c.Violate("C17.mixed", "the plugin %s succeeded, but %s holds %q instead of %q; %s", have[f], f, clip(string(b), 200), clip(want, 200), r.Desc())
			return
		}
	}
	for f, t := range x.ideal {
		if len(s.K.Fired) > 0 || x.old {
			break
		}
		if b, ok := s.K.FS.Get(f); ok && string(b) != t {
			c.Violate("C17.mixed", "%s holds %q instead of %q; %s", f, clip(string(b), 200), clip(t, 200), r.Desc())
			return
		}
	}
}

// learn runs the command with plugins that all work, to know what they generate.
func (x *gens) learn() {
	g := x.g
	s := g.Machine("ideal", Plain())
	var outs []string
	for _, pl := range g.L.P.Plugins {
		outs = append(outs, g.L.P.OutDir(pl))
		switch {
		case pl.Name == "descriptor_set":
		case pl.Path != "":
			s.K.FS.Put(pl.Path, kern.Image("plugin "+pl.Name+" ok", ""), 0755)
		default:
			s.Plugin(pl.Name, "ok")
		}
	}
	r := g.L.Do(s, RunOpts{})
	if r.Code() != 0 && !strings.HasPrefix(g.L.Name, "all") {
		return
	}
	x.ideal = map[string]string{}
	for _, o := range outs {
		for _, e := range s.K.FS.Tree(o) {
			if !e.Node.IsDir() && e.Node.Target == "" {
				x.ideal[e.Path] = string(e.Node.Data)
			}
		}
	}
}

func (c *Ctx) gens(odd, errs float64, np int) *gens {
	g := c.Rig(LoadOpts{Only: []string{"generate", "generate", "generate", "generate-file", "all-nofmt", "all"},
		Proj: &ProjOpts{Errors: errs, Unformatted: 0.2, Plugins: np, MaxDirs: 6, MaxFiles: 3, GenOdd: c.P("odd", odd), Silent: c.P("silent", 0.3), GoPlugin: c.P("goplug", 0.3), Excludes: true, Rich: c.P("rich", 0.7)}})
	x := &gens{g: g}
	x.want = g.L.P.Selected(g.L.Sub)
	x.learn()
	return x
}

func init() {
	register("C17", "schedules", 3, func(c *Ctx) {
		x := c.gens(0.7, []float64{0, 0, 0.15}[c.N("errs", 3)], 4)
		var first *Run
		for _, name := range []string{"a", "b"} {
			s := x.g.Machine(name, Quiet(c.Swarm(name)))
			r := x.g.L.Start(s, RunOpts{})
			x.ready(s, r)
			s.Run()
			x.judge(s, r)
			if first == nil {
				first = r
			} else if r.Code() != first.Code() || norm(r.Stdout()) != norm(first.Stdout()) {
				c.Violate("C17.schedule", "the result depends on the schedule: %s, but with another schedule %s", first.Desc(), r.Desc())
			}
		}
	})
	register("C17", "obstacle", 2, func(c *Ctx) {
		x := c.gens(0.2, 0, 3)
		g := x.g
		if len(g.L.P.Plugins) == 0 {
			return
		}
		s := g.Machine("a", Quiet(c.Swarm("a")))
		pl := g.L.P.Plugins[c.N("which", len(g.L.P.Plugins))]
		out := g.L.P.OutDir(pl)
		kind := c.Pick("kind", "file", "parentfile", "old", "link", "dangling")
		blocked := ""
		switch kind {
		case "file":
			s.K.FS.Put(out, []byte("in the way\n"), 0644)
			blocked = out
		case "parentfile":
			s.K.FS.Put(path.Dir(out), []byte("in the way\n"), 0644)
			blocked = path.Dir(out)
		case "old":
			x.old = true
			for f := range x.ideal {
				if c.P("old/"+f, 0.5) {
					s.K.FS.Put(f, []byte("old content that is longer than the new one, by far: "+strings.Repeat("old ", 500)), 0644)
				}
			}
		case "link":
			s.K.FS.MkdirAll("/work/elsewhere")
			s.K.FS.MkdirAll(path.Dir(out))
			s.K.FS.Symlink("/work/elsewhere", out)
		case "dangling":
			s.K.FS.MkdirAll(path.Dir(out))
			s.K.FS.Symlink("/work/nowhere", out)
			blocked = out
		}
		c.Sample("%s: %s", kind, out)
		r := g.L.Start(s, RunOpts{})
		x.ready(s, r)
		s.Run()
		if blocked == "" {
			if kind == "link" {
				x.ideal = nil
			}
			x.judge(s, r)
			return
		}
		if !r.P.Exited() {
			return
		}
		for _, pr := range s.ProtocRuns(r) {
			if name, _, _ := outArg(pr.Args); name != "" {
				c.Violate("C17.blocked", "%s cannot be created (%s), but the plugin %s ran; %s", out, kind, name, r.Desc())
				return
			}
			if pr.P.Code != 0 || len(x.lines(pr)) > 0 {
				return // all stops before it generates
			}
		}
		for _, q := range g.L.P.Plugins {
			if q.Missing && q.Path != "" {
				return
			}
		}
		if r.OK() || !strings.Contains(r.Stdout(), blocked) {
			c.Violate("C17.blocked", "%s cannot be created (%s), but %s", out, kind, r.Desc())
		}
		c.Hit("c17.blocked")
	})
	register("C17", "faults", 3, func(c *Ctx) {
		x := c.gens(0.3, 0, 3)
		g := x.g
		a := g.Machine("a", Quiet(c.Swarm("a")))
		ra := g.L.Start(a, RunOpts{Faulty: true, KidFaulty: true})
		x.ready(a, ra)
		a.Run()
		x.judge(a, ra)
		t := c.aim(a, 1+c.N("two", 2), func(e kern.EligibleOp, kind string) bool {
			return strings.HasPrefix(kind, "mkdir.") || strings.HasPrefix(kind, "exec.") || strings.HasPrefix(kind, "write.") && !strings.HasPrefix(e.Arg, "/tmp")
		})
		if t == nil {
			return
		}
		b := g.Twin("b", a)
		b.K.Target = t
		rb := g.L.Start(b, RunOpts{Faulty: true, KidFaulty: true})
		x.ready(b, rb)
		b.Run()
		if !rb.P.Exited() {
			return
		}
		all := b.ProtocRuns(rb)
		x.files(b, rb, all)
		hit := ""
		for _, e := range b.K.Log {
			switch {
			case e.Fault == "" || e.P == nil:
			case strings.HasPrefix(e.Fault, "mkdir.") && e.P == rb.P:
				if !rb.OK() {
					c.Hit("c17.mkdir_failed")
				}
				f := path.Clean(e.Arg)
				if n := b.K.FS.LookupFollow(f); (n == nil || !n.IsDir()) && (rb.OK() || !strings.Contains(rb.Stdout(), f)) {
					c.Violate("C17.blocked", "%s could not be created (%s), but %s", f, e.Fault, rb.Desc())
				}
			case strings.HasPrefix(e.Fault, "exec.") && e.Fault != "exec.killed" && !strings.HasSuffix(e.Arg, "--version"):
				hit = e.Fault + " of " + clip(e.Arg, 200)
			}
		}
		for _, pr := range all {
			if pr.P.Code != 0 || pr.P.Sig != 0 || len(x.lines(pr)) > 0 {
				hit = fmt.Sprintf("%s ended with %s", clip(strings.Join(pr.P.Argv, " "), 200), pr.P.Desc())
			}
		}
		if hit != "" {
			c.Hit("c17.run_failed")
			if rb.OK() {
				c.Violate("C17.exit", "%s, but %s", hit, rb.Desc())
			}
		}
	})
}
