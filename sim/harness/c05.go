//go:build go1.25

package harness

import (
	"encoding/json"
	"fmt"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

var tokRE = regexp.MustCompile(`TOK\d+x`)

func toks(s string) []string {
	t := tokRE.FindAllString(s, -1)
	sort.Strings(t)
	return t
}

// outLine is a printed failure.
type outLine struct {
	file      string
	line, col int
	msg       string
}

var failRE = regexp.MustCompile(`^(.*?):(\d+):(\d+):(.*)$`)

func parseFailures(out string) (ls []outLine, rest []string) {
	for _, l := range strings.Split(strings.TrimRight(out, "\n"), "\n") {
		if l == "" {
			continue
		}
		m := failRE.FindStringSubmatch(l)
		if m == nil {
			rest = append(rest, l)
			continue
		}
		a, _ := strconv.Atoi(m[2])
		b, _ := strconv.Atoi(m[3])
		ls = append(ls, outLine{m[1], a, b, m[4]})
	}
	return
}

func (a outLine) less(b outLine) bool {
	af, bf := a.file, b.file
	if af == "<input>" {
		af = ""
	}
	if bf == "<input>" {
		bf = ""
	}
	if af != bf {
		return af < bf
	}
	if a.line != b.line {
		return a.line < b.line
	}
	if a.col != b.col {
		return a.col < b.col
	}
	return a.msg < b.msg
}

// significant keeps the lines of protoc's report that are not mere consequences of another line.
func significant(text string) []string {
	var out []string
	for _, l := range strings.Split(text, "\n") {
		if strings.TrimSpace(l) != "" && !strings.Contains(l, "was not found or had errors.") {
			out = append(out, l)
		}
	}
	return out
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// checkCoverage tells whether the protoc runs cover every directory of the selection, once, with all its files.
func checkCoverage(c *Ctx, class string, r *Run, runs []*ProtocRun, root string, want []string) {
	byDir := map[string][]string{}
	for _, f := range want {
		f = root + "/" + f
		d := f[:strings.LastIndexByte(f, '/')]
		byDir[d] = append(byDir[d], f)
	}
	seen := map[string]int{}
	for _, pr := range runs {
		fs := append([]string(nil), pr.Files...)
		sort.Strings(fs)
		seen[strings.Join(fs, " ")]++
	}
	for _, d := range keysOf(byDir) {
		fs := byDir[d]
		sort.Strings(fs)
		k := strings.Join(fs, " ")
		if seen[k] != 1 {
			var got []string
			for _, pr := range runs {
				got = append(got, strings.Join(pr.Files, ","))
			}
			c.Violate(class, "%s: directory %s with files %s was compiled %d times; protoc ran on: %s", strings.Join(r.Args, " "), d, k, seen[k], strings.Join(got, " | "))
		}
		delete(seen, k)
	}
	for k := range seen {
		c.Violate(class, "%s: protoc ran on %s, which is not a selected directory", strings.Join(r.Args, " "), k)
	}
}

func keysOf(m map[string][]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var oddRE = regexp.MustCompile(`^(\d+):([^:]*):(\d+):(.*)$`)

const oddFormat = "line:filename:column:message"

// plainFailures gives the failures that a command printed in the default format; odd is what is not a failure.
func plainFailures(r *Run) (text, odd string) {
	json, format := contains(r.Args, "--json"), contains(r.Args, "--error-format="+oddFormat)
	if !json && !format {
		return r.Stdout(), ""
	}
	var b strings.Builder
	for _, l := range strings.Split(strings.TrimRight(r.Stdout(), "\n"), "\n") {
		if l == "" {
			continue
		}
		if json {
			var f struct {
				Filename     string
				Line, Column int
				Message      string
			}
			if err := unjson([]byte(l), &f); err != nil {
				return "", l
			}
			if f.Filename == "" {
				f.Filename = "<input>"
			}
			fmt.Fprintf(&b, "%s:%d:%d:%s\n", f.Filename, max(f.Line, 1), max(f.Column, 1), f.Message)
			continue
		}
		m := oddRE.FindStringSubmatch(l)
		if m == nil {
			return "", l
		}
		fmt.Fprintf(&b, "%s:%s:%s:%s\n", m[2], m[1], m[3], m[4])
	}
	return b.String(), ""
}

// checkCompile judges a compile-only command by what its protoc runs reported.
func checkCompile(c *Ctx, s *Sim, r *Run, p *Proj, arg string) {
	runs := s.ProtocRuns(r)
	checkCoverage(c, "C05.coverage", r, runs, p.Root, p.Selected(arg))
	var rep []string
	silent, died := false, false
	for _, pr := range runs {
		lines := significant(pr.Stderr)
		if p.Unused {
			var rest []string
			for _, l := range lines {
				if !unusedLine(l) {
					rest = append(rest, l)
				}
			}
			lines = rest
		}
		rep = append(rep, lines...)
		if pr.P.Code != 0 || pr.P.Sig != 0 {
			if len(lines) == 0 {
				silent = true
			}
		}
		if pr.P.Sig != 0 {
			died = true
		}
	}
	clean := len(rep) == 0 && !silent && !died
	if clean != r.OK() {
		c.Violate("C05.exit", "protoc reported %q (silent failure: %v), but %s", strings.Join(rep, " / "), silent, r.Desc())
		return
	}
	if silent {
		return
	}
	text, odd := plainFailures(r)
	if odd != "" {
		c.Violate("C05.format", "not printed as a failure: %q", odd)
		return
	}
	want, got := toks(strings.Join(rep, "\n")), toks(strings.Join(significant(text), "\n"))
	if !sameStrings(want, got) {
		c.Violate("C05.lost", "protoc reported %s but printed were %s; protoc said:\n%s\nprinted:\n%s", want, got, strings.Join(rep, "\n"), r.Stdout())
		return
	}
	if a, b := len(rep), len(significant(text)); a != b {
		c.Violate("C05.lost", "protoc reported %d failures but %d were printed; protoc said:\n%s\nprinted:\n%s", a, b, strings.Join(rep, "\n"), r.Stdout())
		return
	}
	ls, rest := parseFailures(text)
	if len(rest) > 0 {
		c.Violate("C05.format", "not printed as a failure: %q", rest)
	}
	checkPlaces(c, s, r, p, rep, ls)
	for i := 1; i < len(ls); i++ {
		if ls[i].less(ls[i-1]) {
			c.Violate("C05.order", "failures not in sorted order:\n%s", r.Stdout())
			break
		}
	}
	if len(ls) > 1 {
		c.Hit("c05.several_failures")
	}
}

var placeRE = regexp.MustCompile(`^([^: ]+\.proto):(?:(\d+):(\d+):)? .`)

// checkPlaces tells whether what protoc reported about a place in a selected file was printed for that place.
func checkPlaces(c *Ctx, s *Sim, r *Run, p *Proj, rep []string, ls []outLine) {
	type place struct {
		file      string
		line, col int
	}
	printed := map[place]int{}
	for _, l := range ls {
		f := l.file
		if !path.IsAbs(f) {
			f = path.Join(r.P.Cwd, f)
		}
		printed[place{f, l.line, l.col}]++
	}
	wanted := map[place]int{}
	for _, l := range rep {
		m := placeRE.FindStringSubmatch(l)
		if m == nil || p.Files[m[1]] == "" || p.Excluded[m[1]] {
			continue
		}
		x := place{p.Root + "/" + m[1], 1, 1}
		if m[2] != "" {
			x.line, _ = strconv.Atoi(m[2])
			x.col, _ = strconv.Atoi(m[3])
		}
		wanted[x]++
		if wanted[x] > printed[x] {
			c.Violate("C05.place", "protoc reported %q, but nothing was printed for %s:%d:%d; printed:\n%s", l, x.file, x.line, x.col, r.Stdout())
			return
		}
	}
}

func unjson(b []byte, v interface{}) error { return json.Unmarshal(b, v) }

func init() {
	register("C05", "schedules", 3, func(c *Ctx) {
		p := c.Proj("p", ProjOpts{Errors: []float64{0, 0.1, 0.3, 0.6}[c.N("errs", 4)], Silent: c.P("silent", 0.25), Excludes: true, MaxDirs: 8, Rich: c.P("rich", 0.5)})
		args := p.Args()
		arg := args[c.N("arg", len(args))]
		cmd := []string{"compile"}
		if arg != "." || c.P("dot", 0.3) {
			cmd = append(cmd, arg)
		}
		if arg == "." && c.P("absent", 0.3) {
			cmd = []string{"compile"}
		}
		cwd := p.Root
		if len(cmd) == 2 && c.P("above", 0.25) {
			cwd = path.Dir(p.Root)
			cmd[1] = path.Join(path.Base(p.Root), arg)
		}
		switch c.N("style", 6) {
		case 4:
			cmd = append(cmd, "--json")
		case 5:
			cmd = append(cmd, "--error-format="+oddFormat)
		}
		c.Sample("%s; prototool %s", p.Describe(), strings.Join(cmd, " "))
		warm := c.WarmCache()
		var first *Run
		for _, name := range []string{"a", "b", "c"} {
			s := c.Sim(name, Quiet(c.Swarm(name)))
			s.Warm(warm)
			p.Put(s)
			r := s.Do("compile", RunOpts{Cwd: cwd}, cmd...)
			checkCompile(c, s, r, p, arg)
			if first == nil {
				first = r
			} else if r.Code() != first.Code() || sortedLines(r.Stdout()) != sortedLines(first.Stdout()) {
				c.Violate("C05.schedule", "the result depends on the schedule: %s, but with another schedule %s", first.Desc(), r.Desc())
			}
		}
	})
	register("C05", "file", 1, func(c *Ctx) {
		p := c.Proj("p", ProjOpts{Errors: []float64{0, 0.1, 0.3, 0.6}[c.N("errs", 4)], Excludes: true, MaxDirs: 6, MaxFiles: 3, Rich: c.P("rich", 0.5)})
		sel := p.Selected(".")
		file := sel[c.N("one", len(sel))]
		cmd := []string{"compile", c.Pick("spell", file, "./"+file, p.Root+"/"+file)}
		cwd := p.Root
		switch c.N("cwd", 6) {
		case 0:
			cwd = path.Dir(p.Root)
			cmd[1] = path.Base(p.Root) + "/" + file
		case 1:
			cwd = path.Dir(p.Root + "/" + file)
			cmd[1] = path.Base(file)
		}
		c.Sample("%s; prototool %s", p.Describe(), strings.Join(cmd, " "))
		warm := c.WarmCache()
		var first *Run
		for _, name := range []string{"a", "b"} {
			s := c.Sim(name, Quiet(c.Swarm(name)))
			s.Warm(warm)
			p.Put(s)
			r := s.Do("compile", RunOpts{Cwd: cwd}, cmd...)
			runs := s.ProtocRuns(r)
			checkCoverage(c, "C05.coverage", r, runs, p.Root, p.Selected(path.Dir(file)))
			var rep, own []string
			for _, pr := range runs {
				for _, l := range significant(pr.Stderr) {
					if p.Unused && unusedLine(l) {
						continue
					}
					rep = append(rep, l)
					if strings.HasPrefix(l, file+":") {
						own = append(own, l)
					}
				}
			}
			if (len(rep) == 0) != r.OK() {
				c.Violate("C05.exit", "protoc reported %q, but %s", strings.Join(rep, " / "), r.Desc())
			}
			// the failures of other files may or may not be printed
			have := map[string]bool{}
			for _, t := range toks(r.Stdout()) {
				have[t] = true
			}
			for _, t := range toks(strings.Join(own, "\n")) {
				if !have[t] {
					c.Violate("C05.lost", "protoc reported %s for %s, but printed was %q", t, file, r.Stdout())
				}
			}
			if len(own) > 0 {
				ls, _ := parseFailures(r.Stdout())
				checkPlaces(c, s, r, p, own, ls)
				c.Hit("c05.failures_of_the_file")
			}
			if first == nil {
				first = r
			} else if r.Code() != first.Code() || r.Stdout() != first.Stdout() {
				c.Violate("C05.schedule", "the result depends on the schedule: %s, but with another schedule %s", first.Desc(), r.Desc())
			}
		}
	})
	register("C05", "others", 2, func(c *Ctx) {
		// commands that compile before they do what they are for
		g := c.Rig(LoadOpts{Only: []string{"lint", "lint-ignores", "format", "format-d", "format-l", "format-w", "format-fw", "format-file", "lint-file", "generate", "generate-file", "all", "all-nofmt", "all-nolint", "all-fix", "all-file",
			"ds", "ds-json", "ds-out", "ds-file", "break-git", "break-ds", "break-out", "inspect", "inspect-deps", "inspect-imp", "grpc", "compile-file", "compile-arg"},
			Errors: []float64{0.05, 0.2, 0.5}[c.N("errs", 3)],
			Proj:   &ProjOpts{Errors: []float64{0.05, 0.2, 0.5}[c.N("errs", 3)], Silent: c.P("silent", 0.2), Excludes: true, Unformatted: 0.3, MaxDirs: 6, MaxFiles: 2, Rich: c.P("rich", 0.3)}})
		l := g.L
		s := g.Machine("a", Quiet(c.Swarm("a")))
		r := l.Do(s, RunOpts{})
		if !r.P.Exited() {
			return
		}
		var runs []*ProtocRun
		var rep []string
		seen := map[string]bool{}
		bad, silent := "", false
		for _, pr := range s.ProtocRuns(r) {
			if k := strings.Join(pr.Files, " "); !seen[k] && !strings.HasPrefix(pr.Files[0], "/tmp/") {
				seen[k] = true
				runs = append(runs, pr)
			}
			var lines []string
			for _, x := range significant(pr.Stderr) {
				if !l.P.Unused || !unusedLine(x) {
					lines = append(lines, x)
				}
			}
			rep = append(rep, lines...)
			failed := pr.P.Code != 0 || pr.P.Sig != 0
			if len(lines) > 0 || failed {
				bad = pr.P.Desc() + " " + strings.Join(lines, " / ")
			}
			if failed && len(lines) == 0 {
				silent = true
			}
		}
		if bad != "" && r.OK() {
			c.Violate("C05.exit", "protoc: %s, but %s", clip(bad, 300), r.Desc())
			return
		}
		if l.P != nil && len(runs) > 0 {
			sub := l.Sub
			if l.File != "" {
				sub = path.Dir(l.File)
			}
			checkCoverage(c, "C05.coverage", r, runs, l.P.Root, l.P.Selected(sub))
		}
		if silent || l.File != "" || contains(r.Args, "--debug") {
			return
		}
		want, got := toks(strings.Join(rep, "\n")), toks(strings.Join(significant(r.Stdout()), "\n"))
		if !sameStrings(want, got) {
			c.Violate("C05.lost", "%s: protoc reported %s but printed were %s; protoc said:\n%s\nprinted:\n%s", strings.Join(r.Args, " "), want, got, strings.Join(rep, "\n"), r.Stdout())
		}
		if len(want) > 0 {
			c.Hit("c05.other_failures")
		}
	})
	register("C05", "faults", 2, func(c *Ctx) {
		p := c.Proj("p", ProjOpts{Errors: []float64{0, 0, 0.2}[c.N("errs", 3)], MaxDirs: 8})
		args := p.Args()
		arg := args[c.N("arg", len(args))]
		c.Sample("%s; prototool compile %s with failing protoc processes", p.Describe(), arg)
		warm := c.WarmCache()
		cfg := c.Swarm("a")
		cfg.Faults = map[string]bool{"exec.*": true}
		cfg.FaultP = []float64{0.1, 0.3}[c.N("rate", 2)]
		cfg.MaxFaults = 3
		s := c.Sim("a", cfg)
		s.Warm(warm)
		p.Put(s)
		r := s.Start("compile", RunOpts{Faulty: true}, "compile", arg)
		s.Run()
		failed := ""
		for _, e := range s.K.Log {
			if e.Kind == "exec" && e.Fault != "" && e.Fault != "exec.killed" && !strings.HasSuffix(e.Arg, "--version") {
				failed = e.Fault
			}
		}
		for _, pr := range s.ProtocRuns(r) {
			if pr.P.Sig != 0 {
				failed = "protoc killed"
				c.Hit("c05.protoc_killed")
			}
		}
		if failed != "" && r.OK() {
			c.Violate("C05.exit", "a protoc process failed (%s), but %s", failed, r.Desc())
		}
		if r.OK() {
			checkCompile(c, s, r, p, arg)
		}
	})
}

func sortedLines(s string) string {
	l := strings.Split(s, "\n")
	sort.Strings(l)
	return strings.Join(l, "\n")
}
