//go:build go1.25

package harness

import (
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

var tempName = regexp.MustCompile(`/tmp/[^ :]+`)

var longFlags = map[string]string{"format-w": "--overwrite", "format-l": "--lint=true", "format-d": "--diff", "format-f": "--fix", "descriptor-set-o": "--output-path", "break-o": "--output-path"}

// way is a way of asking for the same.
type way struct {
	desc, cwd string
	args      []string
	config    string // "yaml", "json", "data"
}

// seen is what a command did, with paths that do not depend on the way it was asked.
type seen struct {
	code   int
	out    string
	protoc string
	tree   map[string]string
}

func (x seen) diff(y seen) string {
	switch {
	case x.code != y.code:
		return "the exit codes differ"
	case x.protoc != y.protoc:
		a, b := firstDiff(strings.Split(x.protoc, "\n"), strings.Split(y.protoc, "\n"))
		return "other protoc commands: " + clip(a, 400) + " / " + clip(b, 400)
	case x.out != y.out:
		a, b := firstDiff(strings.Split(x.out, "\n"), strings.Split(y.out, "\n"))
		return "other output: " + clip(a, 300) + " / " + clip(b, 300)
	}
	if d := Diff(x.tree, y.tree); len(d) > 0 {
		return "other files: " + clip(strings.Join(d, ", "), 300)
	}
	return ""
}

func init() {
	register("C22", "ways", 1, func(c *Ctx) {
		p := c.Proj("p", ProjOpts{Errors: []float64{0, 0, 0.2}[c.N("errors", 3)], Unformatted: 0.4, LintFail: []float64{0, 0.3}[c.N("lintfail", 2)], Excludes: true, MaxDirs: 5, MaxFiles: 3, Plugins: 2, GoPlugin: true, Rich: c.P("rich", 0.5)})
		cmd := [][]string{{"compile"}, {"files"}, {"lint"}, {"generate"}, {"all"}, {"all", "--disable-format"}, {"format"}, {"format", "-w"}, {"format", "-l"}, {"descriptor-set", "--include-imports"}, {"lint", "--generate-ignores"},
			{"x", "inspect", "packages"}, {"compile", "--dry-run"}, {"cache", "update"}, {"lint", "--list-linters"}, {"generate", "--dry-run"}, {"lint", "--json"}, {"format", "-f", "-w"}, {"format", "-f"}, {"format", "-d"}}[c.N("cmd", 20)]
		dirs := p.Args()
		bare := c.P("bare", 0.08)
		if bare {
			// a project without any Protobuf file
			for f := range p.Files {
				if strings.HasSuffix(f, ".proto") {
					delete(p.Files, f)
				}
			}
			dirs = []string{"."}
			c.Hit("c22.bare")
		}
		cold := cmd[0] == "cache"
		sub := dirs[c.N("sub", len(dirs))]
		file := ""
		if !bare && c.P("file", 0.25) {
			fs := p.Selected(".")
			file = fs[c.N("which", len(fs))]
			sub = path.Dir(file)
		}
		if p.CfgName == "prototool.yaml" && !bare && c.P("exclbelow", 0.3) {
			// a part of what is asked for is excluded
			d := path.Join(sub, "zexcl")
			p.Files[d+"/nope.proto"] = "syntax = \"proto3\";\n\npackage zexcl;\n\n// @protoc " + d + "/nope.proto:1:1: nope\n// @protoc-exit 1\nmessage Nope {}\n"
			p.Excluded[d+"/nope.proto"] = true
			p.exclude("  - " + d + "\n")
			c.Hit("c22.excluded_below")
		}
		target := path.Join(p.Root, sub)
		if file != "" {
			target = path.Join(p.Root, file)
		}
		made := func(i string) way {
			w := way{cwd: p.Root, config: c.Pick("config"+i, "yaml", "yaml", "json", "data")}
			if w.config != "data" {
				places := []string{p.Root, path.Dir(p.Root), "/", "/opt", path.Join(p.Root, dirs[c.N("there"+i, len(dirs))])}
				if file == "" {
					places = append(places, target)
				}
				w.cwd = places[c.N("cwd"+i, len(places))]
			}
			rel, err := filepath.Rel(w.cwd, target)
			if err != nil {
				panic(err)
			}
			if rel == "." && c.P("none"+i, 0.5) {
				// nothing
			} else {
				base := path.Base(target)
				ways := []string{rel, target, "./" + rel, path.Dir(target) + "//" + base, "/work/../" + target, path.Dir(target) + "/./" + base}
				if file == "" {
					ways = append(ways, rel+"/", rel+"/../"+base, rel+"/.")
				}
				w.args = []string{ways[c.N("spell"+i, len(ways))]}
			}
			w.desc = w.config + " in " + w.cwd + " " + strings.Join(w.args, " ")
			return w
		}
		warm := c.WarmCache()
		do := func(name string, w way) (seen, *Run) {
			s := c.Sim(name, Quiet(c.Swarm(name)))
			if !cold {
				s.Warm(warm)
			}
			p.Put(s)
			s.K.FS.MkdirAll(p.Root)
			s.K.FS.MkdirAll("/opt")
			words := 0
			for words < len(cmd) && !strings.HasPrefix(cmd[words], "-") {
				words++
			}
			flags := append([]string(nil), cmd[words:]...)
			if c.P(name+"/long", 0.3) {
				for i, f := range flags {
					if l := longFlags[cmd[0]+f]; l != "" {
						flags[i] = l
					}
				}
			}
			args := append(append([]string(nil), cmd[:words]...), flags...)
			args = append(args, w.args...)
			if c.P(name+"/flagslast", 0.3) {
				args = append(append(append([]string(nil), cmd[:words]...), w.args...), flags...)
			}
			as := p.Config
			if p.CfgName == "prototool.yaml" && w.config != "yaml" {
				as = yamlToJSON(as)
			}
			if p.CfgName == "prototool.yaml" || w.config == "data" {
				s.K.FS.Remove(path.Join(p.Root, p.CfgName))
			}
			switch {
			case w.config == "data":
				args = append(args, "--config-data", as)
			case p.CfgName == "prototool.yaml":
				s.K.FS.Put(path.Join(p.Root, "prototool."+w.config), []byte(as), 0644)
			}
			o := RunOpts{Cwd: w.cwd}
			if c.P(name+"/pwd", 0.2) {
				// as left by a program that changes the directory for a command, but not the environment
				o.Env = map[string]string{"PWD": []string{"/", p.Root, path.Dir(p.Root), target, "/nowhere", "", "-"}[c.N(name+"/stale", 7)]}
				c.Hit("c22.stale_pwd")
			}
			r := s.Do("main", o, args...)
			x := seen{code: r.Code(), tree: userTree(s)}
			if cold {
				x.protoc = strings.Join(urlsOf(s.K), "\n")
			}
			for _, f := range []string{"prototool.yaml", "prototool.json"} {
				delete(x.tree, path.Join(p.Root, f))
			}
			var cmds []string
			for _, pr := range s.ProtocRuns(r) {
				cmds = append(cmds, strings.Join(pr.P.Argv, " "))
			}
			for i := range cmds {
				cmds[i] = tempName.ReplaceAllString(cmds[i], "/tmp/X")
			}
			sort.Strings(cmds)
			x.protoc += strings.Join(cmds, "\n")
			lines := strings.Split(r.Stdout(), "\n")
			for i, l := range lines {
				if len(cmd) > 1 && cmd[1] == "-d" && (strings.HasPrefix(l, "--- ") || strings.HasPrefix(l, "+++ ") || strings.HasPrefix(l, "diff ")) {
					lines[i] = "" // paths and times
					continue
				}
				f, rest := l, ""
				if t := strings.TrimPrefix(l, `{"filename":"`); t != l {
					f, rest, _ = strings.Cut(t, `"`)
				} else if j := strings.IndexByte(l, ':'); j >= 0 {
					f, rest = l[:j], l[j:]
				}
				indent := f[:len(f)-len(strings.TrimLeft(f, " -"))]
				if f = f[len(indent):]; f == "" {
					continue
				}
				if contains(cmd, "--generate-ignores") && rest == "" {
					continue // relative to the configuration
				}
				if rel := f; !path.IsAbs(f) {
					// A failure in an excluded file keeps the name protoc gave it.
					if f = path.Join(w.cwd, rel); s.K.FS.Lookup(f) == nil {
						f = path.Join(p.Root, rel)
					}
				}
				if n := s.K.FS.Lookup(f); n != nil && strings.HasSuffix(f, ".proto") {
					lines[i] = indent + f + rest
				}
			}
			if cmd[0] != "format" || len(cmd) > 1 || r.Code() != 0 {
				sort.Strings(lines) // by the notation of paths
			}
			x.out = strings.Join(lines, "\n")
			return x, r
		}
		a, b := made("a"), made("b")
		if a.desc == b.desc {
			b = way{desc: "yaml in " + p.Root + " " + target, cwd: p.Root, args: []string{target}, config: "yaml"}
		}
		c.Sample("prototool %s: %s / %s; %s", strings.Join(cmd, " "), a.desc, b.desc, p.Describe())
		xa, ra := do("a", a)
		da := ra.Desc()
		xb, rb := do("b", b)
		if d := xa.diff(xb); d != "" {
			c.Violate("C22.differs", "%s; %s (%s) and %s (%s)", d, da, a.desc, rb.Desc(), b.desc)
		}
		if xa.code == 0 {
			c.Hit("c22.ok")
		}
		c.Hit("c22." + a.config + "." + b.config)
	})
}
